#!/usr/bin/env python3
"""Apply each planted bug in seeded/ to /repo, run the checks, undo it, and report which checks saw it.

seeds.py [--all] [ID...]   (--all: run every check; default: only the check of the bug's own property)
No check uses this; it is the developer's tool that fills the table in DESIGN.md."""
import json, os, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [a for a in sys.argv[1:] if not a.startswith('-')] or sorted(os.listdir(V + '/seeded'))
props = [c['property'] for c in json.load(open(V + '/MANIFEST.json'))['checks']] if '--all' in sys.argv else None
out = {}
for i in ids:
    d = f'{V}/seeded/{i}'
    own = json.load(open(d + '/meta.json'))['property']
    subprocess.run(['git', '-C', '/repo', 'apply', d + '/patch.diff'], check=True)
    hit = []
    try:
        for p in props or [own]:
            t = time.time()
            r = subprocess.run(['bash', V + '/bin/check.sh', p, 'quick'], capture_output=True, text=True)
            line = next((l for l in r.stdout.splitlines() if l.startswith('VIOLATION')), '')
            if r.returncode == 1 and f'property={p} ' in line:
                hit.append(p)
            elif r.returncode:
                hit.append(f'{p}:exit{r.returncode}')
            if p == own:
                print(f'   {p} exit {r.returncode} {time.time() - t:.1f}s', *[l for l in r.stdout.splitlines() if l.startswith(('VIOLATION', '  ', 'violat'))][:3], sep=' | ')
    finally:
        subprocess.run(['git', '-C', '/repo', 'checkout', '--', '.'], check=True)
    out[i] = hit
    print(i, own, 'CAUGHT' if own in hit else 'MISSED', hit, flush=True)
