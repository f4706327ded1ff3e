#!/usr/bin/env python3
"""ref.py FILE NAME [CHECK...]: applies the behaviour-preserving edits NAME of
FILE to the worktree /tmp/wt, runs the tests there and then the quick checks,
which all have to stay quiet."""
import os, runpy, subprocess, sys, time
WT = '/tmp/wt'
ns = runpy.run_path(sys.argv[1])
name = sys.argv[2]
checks = sys.argv[3:] or ['C%02d' % i for i in range(1, 15)] + ['C23']
subprocess.run(['git', '-C', WT, 'checkout', '-q', '--', '.'], check=True)
for f, old, new in ns['REFACTORS'][name]:
    if old is None:
        open(f'{WT}/{f}', 'w').write(new); continue
    s = open(f'{WT}/{f}').read()
    n = s.count(old)
    if n != 1:
        sys.exit(f"{name}: {f}: {n} matches of {old!r}")
    open(f'{WT}/{f}', 'w').write(s.replace(old, new))
env = dict(os.environ, GOFLAGS='-mod=mod', GOPROXY='off', GOTOOLCHAIN='local')
if subprocess.run('go build ./... && go vet ./dictionary . 2>&1 | head -5; go test ./... 2>&1 | grep -v "no test files"', shell=True, cwd=WT, env=env).returncode:
    sys.exit(f'{name}: does not build')
env['VSIM_REPO'] = WT
for c in checks:
    t = time.time()
    p = subprocess.run(['bash', '/verif/check.sh', c, 'quick', 'evidence=/tmp/ev-ref.json', 'replays=/tmp/rp-ref'], env=env, capture_output=True, text=True)
    print(name, c, 'rc=%d' % p.returncode, '%.0fs' % (time.time() - t), flush=True)
    if p.returncode:
        print(p.stdout[-3000:], p.stderr[-3000:], flush=True)
