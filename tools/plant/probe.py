#!/usr/bin/env python3
"""probe.py FILE [ID...]: applies each change of FILE to /tmp/wt, builds and
tests it there and runs its property's quick check (CHECKS overrides), which
should report a violation."""
import os, runpy, subprocess, sys, time
WT = '/tmp/wt'
P = runpy.run_path(sys.argv[1])['P']
want = sys.argv[2:]
env = dict(os.environ, GOFLAGS='-mod=mod', GOPROXY='off', GOTOOLCHAIN='local')
for id, prop, edits in P:
    if want and id not in want:
        continue
    subprocess.run(['git', '-C', WT, 'checkout', '-q', '--', '.'], check=True)
    ok = True
    for f, old, new in edits:
        s = open(f'{WT}/{f}').read()
        if s.count(old) != 1:
            print(f"{id}: {f}: {s.count(old)} matches of {old!r}"); ok = False; break
        open(f'{WT}/{f}', 'w').write(s.replace(old, new))
    if not ok:
        continue
    p = subprocess.run('go build ./... && go test -vet=off ./...', shell=True, cwd=WT, env=env, capture_output=True, text=True)
    if p.returncode:
        print(f'{id}: does not build or pass', p.stdout[-500:], p.stderr[-500:]); continue
    for c in os.environ.get('CHECKS', prop).split():
        t = time.time()
        p = subprocess.run(['bash', '/verif/check.sh', c, 'quick', 'evidence=/tmp/ev-pr.json', 'replays=/tmp/rp-pr'],
                           env=dict(env, VSIM_REPO=WT), capture_output=True, text=True, errors='replace')
        why = [l for l in p.stdout.splitlines() if l.startswith(('found:', 'VIOLATION'))]
        print(f"{id} {c} rc={p.returncode} {time.time()-t:.0f}s {why[0][:220] if why else p.stderr[-300:]}", flush=True)
subprocess.run(['git', '-C', WT, 'checkout', '-q', '--', '.'])
