#!/usr/bin/env python3
"""Applies planted bugs to /repo one after another, runs checks, undoes each. usage: seeds.py [--all-checks] [id ...]; results in .build/seeds.json"""
import json, os, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = [a for a in sys.argv[1:] if not a.startswith('--')]
ids = args or sorted(os.listdir(V + '/seeded'))
res_file = V + '/.build/seeds.json'
res = json.load(open(res_file)) if os.path.exists(res_file) else {}
checks = [c['property'] for c in json.load(open(V + '/MANIFEST.json'))['checks']] if '--all-checks' in sys.argv else None
def git(*a):
    return subprocess.run(['git', '-C', '/repo'] + list(a), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
assert not git('status', '--porcelain').stdout.strip(), 'unclean /repo'
for i in ids:
    d = '%s/seeded/%s' % (V, i)
    prop = json.load(open(d + '/meta.json'))['property']
    p = git('apply', d + '/patch.diff')
    if p.returncode:
        print(i, 'does not apply'); continue
    try:
        for c in checks or [prop]:
            t = time.time()
            q = subprocess.run([sys.executable, V + '/run.py', 'check', c], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, cwd=V)
            hit = [l for l in q.stdout.splitlines() if l.startswith('VIOLATION property=%s ' % c)]
            ok = q.returncode == 1 and bool(hit)
            res.setdefault(i, {})[c] = 'caught' if ok else ('missed' if q.returncode == 0 else 'exit %d' % q.returncode)
            first = next((l.strip() for l in q.stdout.splitlines() if l.startswith('  ')), '')
            print('%-28s %s %-7s %3ds  %s' % (i, c, res[i][c], time.time() - t, first[:150]), flush=True)
            if q.returncode not in (0, 1): print(q.stdout[-800:])
    finally:
        git('checkout', '--', '.')
        json.dump(res, open(res_file, 'w'), indent=1, sort_keys=True)
