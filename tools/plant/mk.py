#!/usr/bin/env python3
"""mk.py FILE [ID...]: makes the planted bugs FILE describes (see plants1.py) in
/verif/seeded with the help of the worktree /tmp/wt, and confirms each."""
import json, os, runpy, subprocess, sys
WT = '/tmp/wt'
ns = runpy.run_path(sys.argv[1])
want = sys.argv[2:]
for p in ns['PLANTS']:
    if want and p['id'] not in want:
        continue
    d = f"/verif/seeded/{p['id']}"
    os.makedirs(d, exist_ok=True)
    subprocess.run(['git', '-C', WT, 'checkout', '-q', '--', '.'], check=True)
    for f, old, new in p['edits']:
        s = open(f'{WT}/{f}').read()
        if s.count(old) != 1:
            sys.exit(f"{p['id']}: {f}: {s.count(old)} matches of {old!r}")
        open(f'{WT}/{f}', 'w').write(s.replace(old, new))
    if os.path.exists(d + '/patch.diff'):
        os.remove(d + '/patch.diff')
    open(d + '/main.go', 'w').write(p['main'].lstrip('\n'))
    for n, s in p.get('files', {}).items():
        open(f'{d}/{n}', 'w').write(s)
    json.dump({'property': p['prop'], 'needs': p['needs'], 'what_it_breaks': p['breaks']},
              open(d + '/meta.json', 'w'), indent=1, ensure_ascii=False)
    subprocess.run(['bash', '/verif/tools/plant/plant.sh', p['id']])
