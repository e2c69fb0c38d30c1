"""Calls of the numeric helpers, recorded and checked against spec/util.qnt."""
import random, math
from common import *
from walks import judge

SPECIAL = [0.0, -0.0, 1.0, -1.0, 1e-8, 1e308, -1e308, 1.7976931348623157e308, -1.7976931348623157e308, 5e-324, -5e-324, 2.2250738585072014e-308, 1e-300, 0.1, 1 / 3, 2.0**53, 1e16, 1e22]
ODD = SPECIAL + [float('inf'), float('-inf'), float('nan')]
def dbl(r):
    k = r.random()
    if k < .2: return r.choice(SPECIAL)
    if k < .5: return r.uniform(-100, 100)
    if k < .7: return float(r.randint(-50, 50))
    while True:
        x = unbits(r.getrandbits(64))
        if abs(x) < float('inf'): return x
def nudge(x, k):
    return unbits(min(max(0, bits(abs(x)) + k), 0x7fefffffffffffff)) * (1 if x >= 0 else -1)
def grids(r, n):
    out = []
    for k in range(n):
        c = r.random()
        if c < .4: a, b = dbl(r), dbl(r)
        elif c < .6: a, b = r.uniform(-10, 10), r.uniform(-10, 10)
        elif c < .7: a = b = dbl(r)
        elif c < .8:
            a = dbl(r); b = nudge(a, r.randint(-20, 20))
        else: a, b = r.choice([(0, 1), (1, 0), (0, 10), (-1, 1), (5, -5), (0.1, 0.7), (1e6, 1e6 + 1)])
        if max(abs(a), abs(b), abs(b - a)) > 1.79e308: continue     # beyond: rounding may leave the range of doubles (known finding)
        out.append({'op': 'linspace', 'a': [hx(a), hx(b), r.choice([0, 1, 2, 3, 4, 5, 7, 10, 11, 49, 50, 99, 100, 101, 173, 256, 257] + ([1000, 2001] if k % 20 == 0 else []))]})
    return out
def diffs(r, n):
    out = []
    for k in range(n):
        m = r.choice([0, 1, 2, 3, 5, 20, 100])
        l = [dbl(r) for _ in range(m)]
        if r.random() < .3: l = sorted(l)
        if r.random() < .3: l = [nudge(l[0], j * r.randint(0, 3)) for j in range(m)] if l else l
        if r.random() < .15:
            for _ in range(r.randint(1, 3)):
                j = r.randrange(m + 1)
                l[j:j + 1] = [r.choice([float('inf'), float('-inf'), float('nan')])] * r.choice([1, 1, 2])
        out.append({'op': 'diff', 'a': [hx(x) for x in l]})
    return out
def equals(r, n):
    out = []
    for k in range(n):
        e = None if r.random() < .35 else r.choice([1e-8, 1e-3, 0.5, 1e-12, 1e-15, 1e-16, 3.0, 1e-100, 1e300, 10 ** r.uniform(-14, 2), 0.0, -1.0, 1.0])
        t = 1e-8 if e is None else abs(e)
        a = r.choice(ODD) if r.random() < .05 else dbl(r)
        c = r.random()
        if c < .15: b = a
        elif c < .3: b = r.choice(ODD) if r.random() < .15 else dbl(r)
        elif c < .4: b = nudge(a, r.randint(-5, 5))
        elif c < .65: b = a + t * r.choice([-1, 1]) * r.choice([.5, .9, .99, .999999, 1.000001, 1.01, 1.1, 2, 10, 0.1])
        elif c < .9:
            f = t * r.choice([.5, .9, .99, 1.01, 1.1, 2, .999999, 1.000001, 4, .25]) * r.choice([-1, 1])
            b = a * ((1 + f) / (1 - f) if f != 1 else 3.0)
        else: b = -a
        if math.isinf(b) and r.random() < .9: continue
        out.append({'op': 'almost_eq', 'a': [hx(a), hx(b), None if e is None else [hx(e)]]})
    return out
def zips(r, n):
    out = []
    for k in range(n):
        m = r.choice([2, 3, 4, 6])
        same = r.random() < .4
        odd = r.random() < .3
        l = r.choice([0, 1, 2, 3, 5, 9])
        out.append({'op': 'zip', 'a': [[hx(r.choice(ODD) if odd else float(10 * j + i)) for i in range(l if same else r.choice([0, 1, 2, 3, 5, 9, l]))] for j in range(m)]})
    return out
def lst(l): return [len(l)] + [hbits(x) for x in l]
def check(chk, binary, n):
    r = random.Random('%d/util/%s' % (SEED, TIER))
    calls = grids(r, n) + diffs(r, n // 3) + equals(r, 3 * n) + zips(r, n // 3)
    calls += [{'op': 'longgrid', 'a': m} for m in [257, 4097, 2**16 + 1, 10**5 + 1, 2**20 + 2, 2**24 + 2]] + [{'op': 'timed', 'a': m} for m in [0, 1, 20]]
    t0 = time.time()
    scs = [{'id': k, 'ops': [c] + ([{'op': 'almost_eq', 'a': [c['a'][1], c['a'][0], c['a'][2]]}] if c['op'] == 'almost_eq' else [])} for k, c in enumerate(calls)]
    res = run_scenarios(binary, scs)
    chk.phase('code', t0)
    groups = []
    for k, c in enumerate(calls):
        if res[k].get('skipped'): continue
        o = res[k].get('out')
        if not o or any('ok' not in x for x in o):
            chk.violation('C25: %s: %s' % (json.dumps(c)[:300], json.dumps(o or res[k])[:200]), {'scenario': scs[k]})
            continue
        a, v = c['a'], o[0]['ok']
        if c['op'] == 'linspace': w = [k, 1, hbits(a[0]), hbits(a[1]), a[2]] + lst(v)
        elif c['op'] == 'diff': w = [k, 2] + lst(a) + lst(v)
        elif c['op'] == 'almost_eq': w = [k, 3, hbits(a[0]), hbits(a[1]), 0 if a[2] is None else 1, 0 if a[2] is None else hbits(a[2][0]), int(v), int(o[1]['ok'])]
        elif c['op'] == 'longgrid': w = [k, 5, a] + [x if isinstance(x, int) else hbits(x) for x in v]
        elif c['op'] == 'timed': w = [k, 6] + v
        else: w = [k, 4, len(a)] + [x for l in a for x in lst(l)] + lst([x for t in v for x in t])
        groups.append([(k, w, 1)])
    judge(chk, groups, 'util', lambda sid: {'scenario': scs[sid]}, {'C25'}, 'util')
    chk.sample({'calls': [calls[0], calls[n], calls[-1]]})
def demonstrate(chk, binary):
    """whether a grid between ends whose distance overflows still comes out wrong (known finding of C25)"""
    v = run_scenarios(binary, [{'id': 0, 'ops': [{'op': 'linspace', 'a': [hx(-1.5e308), hx(1.5e308), 3]}]}])[0]['out'][0].get('ok', [])
    return [unhx(x) for x in v] != [-1.5e308, 0.0, 1.5e308]
