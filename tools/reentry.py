#!/usr/bin/env python3
"""Development aid. Quint's simulator keeps one register per operator parameter, so an operator that takes a lambda must not be
re-entered from inside that lambda. Lists every such call in the given modules (through `quint compile --target json`)."""
import json, subprocess, sys
def walk(e, f):
    if isinstance(e, dict):
        f(e)
        for v in e.values(): walk(v, f)
    elif isinstance(e, list):
        for v in e: walk(v, f)
def main(path):
    p = subprocess.run(['quint', 'parse', '--out', '/tmp/reentry.json', path], capture_output=True, text=True)
    if p.returncode: sys.exit(p.stdout + p.stderr)
    ir = json.load(open('/tmp/reentry.json'))
    table = {int(k): v for k, v in ir['table'].items()}
    defs = {}
    def coll(e):
        if e.get('kind') == 'def': defs[e['id']] = e
    walk(ir['modules'], coll)
    memo = {}
    def calls(did, stack=()):
        if did in memo: return memo[did]
        if did in stack or did not in defs: return set()
        out = set()
        def g(e):
            r = table.get(e.get('id')) if e.get('kind') in ('app', 'name') else None
            if r and r.get('id') in defs and r['id'] != did:
                out.add(r['id']); out.update(calls(r['id'], stack + (did,)))
        walk(defs[did]['expr'], g)
        memo[did] = out
        return out
    bad = set()
    for did, d in defs.items():
        def g(e):
            if e.get('kind') != 'app': return
            r = table.get(e['id'])
            if not r or r.get('id') not in defs: return
            F = r['id']
            for a in e['args']:
                if a.get('kind') != 'lambda':
                    # a named operator passed as argument
                    if a.get('kind') == 'name':
                        rr = table.get(a['id'])
                        if rr and rr.get('id') in defs and defs[rr['id']]['expr'].get('kind') == 'lambda' and (F in calls(rr['id']) or F == rr['id']):
                            bad.add((d['name'], defs[F]['name']))
                    continue
                inner = set()
                def h(x):
                    q = table.get(x.get('id')) if x.get('kind') in ('app', 'name') else None
                    if q and q.get('id') in defs:
                        inner.add(q['id']); inner.update(calls(q['id']))
                walk(a, h)
                if F in inner: bad.add((d['name'], defs[F]['name']))
        walk(d['expr'], g)
    for x in sorted(bad): print('re-entry: in', x[0], 'of', x[1])
    return bool(bad)
sys.exit(any([main(p) for p in sys.argv[1:]]))
