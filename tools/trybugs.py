#!/usr/bin/env python3
"""Development tool: apply each planted bug to /repo, run its property's quick check, undo. Never run by a check."""
import json, os, subprocess, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('REPO', '/repo')
ids = sys.argv[1:] or sorted(os.listdir(R + '/seeded'))
for i in ids:
    d = '%s/seeded/%s' % (R, i)
    p = json.load(open(d + '/meta.json'))['property']
    subprocess.run(['git', '-C', REPO, 'apply', d + '/patch.diff'], check=True)
    try:
        r = subprocess.run(['python3', 'run.py', p], cwd=R, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    finally:
        subprocess.run(['git', '-C', REPO, 'checkout', '--', '.'], check=True)
    v = [l for l in r.stdout.splitlines() if 'VIOLATION' in l]
    print(i, p, 'exit', r.returncode, 'CAUGHT' if r.returncode == 1 and v else 'MISSED', flush=True)
    if r.returncode not in (0, 1): print(r.stdout[-2000:])
