#!/usr/bin/env python3
"""Applies planted bugs to /repo one by one, runs checks, undoes them. matrix.py [--all] [ID...]"""
import json, os, subprocess, sys, time
V = '/verif'
args = sys.argv[1:]
every = '--all' in args
ids = [a for a in args if not a.startswith('-')] or sorted(os.listdir(V + '/seeded'))
props = [json.loads(l)['id'] for l in open(V + '/properties.jsonl')]
def git(*a): return subprocess.run(['git', '-C', '/repo', *a], capture_output=True, text=True)
assert not git('status', '--porcelain').stdout, '/repo is not clean'
for b in ids:
    meta = json.load(open(f'{V}/seeded/{b}/meta.json'))
    r = git('apply', f'{V}/seeded/{b}/patch.diff')
    if r.returncode: print(b, 'does not apply', r.stderr); continue
    try:
        caught, odd, t = [], [], time.time()
        for p in (props if every else [meta['property']]):
            r = subprocess.run([V + '/check.sh', p, 'quick'], capture_output=True, text=True)
            v = [l for l in r.stdout.splitlines() if l.startswith(f'VIOLATION property={p} ')]
            if r.returncode == 1 and v:
                caught.append(p)
                if p == meta['property']:
                    what = [l for l in r.stdout.splitlines() if l.startswith(('case:', 'found'))]
            elif r.returncode: odd.append((p, r.returncode, r.stdout[-200:]))
        ok = meta['property'] in caught
        print(f"{b:28} {meta['property']} {'CAUGHT' if ok else 'MISSED'} by {' '.join(caught)} {odd or ''} ({time.time()-t:.0f} s)")
        if ok and not every:
            for w in what: print('      ', w[:230])
        sys.stdout.flush()
    finally:
        git('checkout', '--', '.')
