#!/usr/bin/env python3
# w.py ID count [race]: run plans and summarise
import sys,subprocess,json,collections
id,n=sys.argv[1],sys.argv[2]
race='-race' if len(sys.argv)>3 and sys.argv[3]=='race' else ''
B=subprocess.run(['bash','/verif/build.sh','race' if race else 'plain'],capture_output=True,text=True)
if B.returncode: print(B.stderr[:3000]); sys.exit(1)
B=B.stdout.strip().split('\n')[-1]
import time,os
t=time.time()
env=dict(os.environ,GORACE="halt_on_error=0 exitcode=0 atexit_sleep_ms=0")
p=subprocess.run([f'{B}/simdrv{race}','work',id,'first=0','stride=1','count='+n,'budget=600','stop=200'],capture_output=True,text=True,errors='replace',env=env)
cl=collections.OrderedDict()
for l in p.stdout.split('\n'):
    if not l: continue
    try: m=json.loads(l)
    except Exception: print('bad line',l[:200]); continue
    if 'res' in m: 
        v=m['res']['v']; cl.setdefault(v['class'],[]).append((m.get('i',0),v['msg']))
        json.dump(m['plan'],open(f'/tmp/plan-{id}-{m.get("i",0)}','w'))
        open(f'/tmp/plan-{id}-{m.get("i",0)}','w').write(m['plan']+'\n')
    if 'agg' in m:
        a=m['agg']; print({k:a[k] for k in a if k not in('Hashes','Inters','First','hash')}, 'distinct',len(a['Hashes']or[]),'inter',len(a['Inters'] or []))
for c,l in cl.items():
    print('==',c,len(l))
    for i,m in l[:3]: print(i,m[:1500])
print('rc',p.returncode,'%.1fs'%(time.time()-t), p.stderr[-3000:])
