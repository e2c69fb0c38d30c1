"""Replays behaviours of the walking machine (spec/walk.qnt) in the library: times are multiples of 1/16, so that the library's
arithmetic on them is exact and every row, step and state can be compared for equality."""
import random
from common import *
from model import *
from walks import Scen, hist_len

class Unit:
    """the unit of time and the origin of the clock: exact in the arithmetic of the library"""
    def __init__(self, u, off): self.u, self.off = u, off
    def t(self, x): return (x + self.off) * self.u
    def y(self, area, t, t0): return (area + self.off * (t - t0)) * self.u * self.u
UNITS = [(1 / 16, 0), (1 / 16, 0), (2.0 ** -60, 0), (2.0 ** 40, 0), (1 / 16, 2 ** 30), (1 / 16, -20), (2.0 ** -30, 2 ** 22)]
HOPS = ['yaml', 'bin', 'json', 'clone']

def scenario(k, tr, r, hops=True):
    """(operations, expectations): expectations are (index of the dump, model state, model steps of the call)"""
    s0 = tr[0]
    ad = s0['adaptive']
    m = r.choice(['bs', 'ck']) if ad else 'euler'
    un = Unit(*UNITS[k % len(UNITS)])
    U = un.u
    sol = adaptive(m, s0['prop'] * U, s0['dt'] * U, r.choice([1, 2, 5, 255]), 1e300, r.choice([1e-9, 1e300]), True, r.random() < .5) if ad else fixed('euler', s0['dt'] * U)
    obj = build('P1', [0.0], sol, [un.t(x) for x in s0['sched']], un.t(s0['t']), s0['i'], None, None, [[(1.0, 1, [])]])
    ops = [{'op': 'new', 's': 'a', 'ty': 'P1', 'v': obj}, {'op': 'evals'}]
    exp = []
    sched = list(s0['sched'])
    slot = 'a'
    n = 0
    j = 0
    while j + 1 < len(tr):
        st = tr[j + 1]
        a = st['#action']
        if a in ('start', 'hand'):
            # the call comes back at the next idle state
            e = j + 1
            while e < len(tr) and tr[e]['phase'][0] != 'Idle': e += 1
            if e >= len(tr): break
            # (the state that ends the call holds its steps)
            ops += [{'op': 'evals'}, {'op': 'call', 's': slot, 'm': 'walk' if a == 'start' else 'hand'}, {'op': 'evals'}, {'op': 'dump', 's': slot}]
            exp.append((len(ops) - 1, a, tr[e], list(st['trail']) if e == j + 1 else list(tr[e]['trail'])))
            j = e
            continue
        if a == 'extend':
            sched = st['sched']
            ops += [{'op': 'patch', 's': slot, 'v': {'t_report': [hx(un.t(x)) for x in sched]}}]
        elif a == 'hop':
            n += 1
            to = 'h%d' % n
            h = HOPS[(k // 7 + n) % 4] if hops else 'clone'
            if h == 'json' and (U != 1 / 16 or un.off > 1000): h = 'yaml'      # the library reads such doubles from JSON inexactly (a listed finding of C19)
            ops += [{'op': 'clone', 's': slot, 'to': to} if h == 'clone' else {'op': 'trip', 's': slot, 'to': to, 'fmt': h, 'ty': 'P1'}, {'op': 'drop', 's': slot}]
            slot = to
        ops.append({'op': 'dump', 's': slot})
        exp.append((len(ops) - 1, a, st, None))
        j += 1
    return {'id': k, 'ops': ops}, exp, ad, (un, s0['t'])

def compare(sc, exp, ad, res, unit):
    """list of (property, text)"""
    if res.get('skipped'): return []
    if res.get('hang'): return [('C01', 'the walk does not come back')]
    o = res['out']
    for x in o:
        if 'panic' in x: return [('C01', 'panic: ' + x['panic'])]
        if 'err' in x: return [('C20', 'error: ' + x['err'])]
    out = []
    nrec = 0
    un, t0 = unit
    U = un.u
    for idx, a, st, trail in exp:
        d = o[idx]['ok']
        tag = 'C20' if a in ('hop', 'hand', 'extend') else 'C01'
        want = [(r['i'], un.t(r['t'])) for r in st['rows']]
        h, ha = d['history'], d['a']['history']
        got = [(i, unhx(t)) for i, t in zip(h['i'], h['time'])]
        if got != want: out.append((tag, 'after %s: rows (position, time) %r, specification has %r' % (a, got, want)))
        if hist_len(h) != {len(want)} or hist_len(ha) != {len(want)}: out.append((tag, 'after %s: histories of lengths %r %r, specification has %d rows' % (a, hist_len(h), hist_len(ha), len(want))))
        if (d['state']['i'], unhx(d['state']['time'])) != (st['i'], un.t(st['t'])): out.append((tag, 'after %s: position and clock %r %r, specification has %r %r' % (a, d['state']['i'], unhx(d['state']['time']), st['i'], un.t(st['t']))))
        if not ad:
            ys = [unhx(x) for x in ha['v']]
            wy = [un.y(r['area'], r['t'], t0) for r in st['rows']]
            if ys != wy: out.append(('C02', 'after %s: states %r show other steps than the specification\'s (%r)' % (a, ys, wy)))
            if unhx(d['a']['state']['v']) != un.y(st['area'], st['t'], t0): out.append(('C02', 'after %s: live state' % a))
        else:
            rec = d['solver_type']['sc']['history']
            if trail is None:
                if len(rec['dt']) != nrec: out.append(('C20', 'after %s: solver record has %d entries instead of %d' % (a, len(rec['dt']), nrec)))
        if trail is not None:
            if ad:
                got = [(unhx(t), unhx(x)) for t, x in zip(rec['t_curr'], rec['dt'])][nrec:]
                want = [(un.t(s['from']), s['len'] * U) for s in trail]
                if got != want: out.append(('C02', 'during %s: steps (start, length) %r, specification has %r' % (a, got, want)))
                nrec = len(rec['dt'])
            ev = [(i, unhx(t)) for i, t in o[idx - 1]['ok']]
            if bool(ev) != bool(trail): out.append(('C02', 'during %s: %d evaluations in %d steps' % (a, len(ev), len(trail))))
            # every evaluation inside a step of the specification
            for i, t in ev:
                if not any(un.t(s['from']) <= t <= un.t(s['from'] + s['len']) for s in trail): out.append(('C02', 'during %s: evaluation at %r outside the steps' % (a, t)))
        if out: break
    return out

def check(chk, binary, n, steps, tags, hops=True):
    trs = behaviours(chk, 'walkRuns', 'walk.qnt', n, steps, SEED)
    r = random.Random(SEED)
    scs = [scenario(k, t, r, hops) for k, t in enumerate(trs)]
    t0 = time.time()
    res = run_scenarios(binary, [s[0] for s in scs])
    chk.phase('code', t0)
    for sc, exp, ad, unit in scs:
        bad = compare(sc, exp, ad, res[sc['id']], unit)
        chk.traces += 1
        chk.add('replayed_calls', len(exp))
        for p, what in bad:
            if p in tags: chk.violation(what, {'scenario': sc})
    for sc, exp, _, _ in scs[:1]: chk.sample({'behaviour_of': 'walk', 'schedule': trs[0][0]['sched'], 'actions': [s['#action'] for s in trs[0]]})
    for a in ('start', 'hand', 'extend', 'hop', 'stepFixed', 'stepAdaptive', 'record'):
        chk.add('act_' + a, sum(s['#action'] == a for t in trs for s in t))
