"""Walk scenarios: random generation, execution plan, and encoding of what was observed as events of the trace specification."""
import random, math, copy, json, time
from common import *
from model import *

F_RECORDED, F_STATES, F_REST, F_CLOSED, F_EXACT, F_COARSE, F_FINE, F_FIRST, F_BASE, F_EDGE = 1, 2, 4, 8, 16, 32, 64, 128, 256, 512

class Scen:
    """ty, obj (initial JSON), flags, ref, twin, rerun; steps for direct calls"""
    steps = ()
    rows0 = 0     # rows saved before the walk
    skim = False  # too long for its steps to be recomputed
    others = ()   # other systems in the same process
    def __init__(self, **kw): self.__dict__.update(kw)

# ---- encoding ----------------------------------------------------------------------------------------------------------
def enc_begin(sid, ty, d, flags, ref=0):
    """BEGIN event from the dump of the object as it is before walking"""
    T = TYPES[ty]
    n = len(T['states'])
    st = d['solver_type']
    m = METHODS.index(st['m'])
    w = [1, sid, m, n, flags]
    if m >= 5:
        sc = st['sc']
        w += [hbits(sc['state']['dt']), hbits(sc['dt_max']), sc['max_iter'], hbits(sc['atol']), hbits(sc['rtol'])]
    else:
        w += [hbits(st['dt']), 0, 0, 0, 0]
    w += [hbits(d['state']['time']), d['state']['i'], ref, 0, len(d['t_report'])] + [hbits(x) for x in d['t_report']]
    w += [hbits(x) for x in states(ty, d)]
    w += [hbits(at(d, (f,) + CAP[k])) if k in CAP else 0 for f, k in T['states']]
    w += [0 if k in CAP else 1 for f, k in T['states']]
    names = [f for f, _ in T['states']]
    w += [len(T['links'])]
    for f, _, a, b in T['links']: w += [names.index(a), names.index(b), hbits(d[f]['h'])]
    if T['sine']: w += [1, 0, 1, 0]
    else:
        fs = d.get('forced', [])
        w += [len(fs)]
        for f in fs: w += [f['j'], 0, len(f['poly'])] + [hbits(c) for c in f['poly']]
    eqs = d['rhs']['eqs'] if T['rhs'] else [[] for _ in names]
    for eq in eqs:
        w += [len(eq)]
        for t in eq: w += [hbits(t['c']), t['tp'], len(t['ys'])] + t['ys']
    w[13] = len(w)
    return w
def enc_opt(x):
    return [0, 0] if x is None else [1, hbits(x[0])]
def enc_step(h, r):
    st = h['states'][r]
    return [2, hbits(h['t_curr'][r]), hbits(h['dt'][r]), h['n_iter'][r]] + enc_opt(h['norm_err'][r]) + enc_opt(h['norm_err_rel'][r]) + [len(st)] + [hbits(x) for x in st]
def enc_row(row):
    i, t, y, k, q = row
    return [3, i, hbits(t)] + [hbits(x) for x in y + k + q]
def enc_end(ty, d0, d, n0, nrec0, mean, twin):
    sc = conf(d)
    w = [4, min(hist_len(d['history'])) - n0, 1 if lens_equal(ty, d) else 0, d['state']['i'], hbits(d['state']['time'])]
    w += [hbits(x) for x in states(ty, d) + derivs(ty, d) + flows(ty, d)]
    w += [changed_mask(ty, d0, d)]
    if sc:
        s = sc['state']
        w += [hbits(s['dt']), s['n_iter']] + enc_opt(s['norm_err']) + enc_opt(s['norm_err_rel']) + [min(hist_len(sc['history'])) - nrec0]
    else: w += [0] * 7
    w += enc_opt(mean) + [twin]
    # steps that were in the record before
    old = sc['history']['dt'][:nrec0] if sc else []
    return w + [len(old)] + [hbits(x) for x in old]

def plan(sid, s):
    """operations of a walk scenario: dump, walk, observe; then the twin with recording switched, and a second run of a copy"""
    ops = [{'op': 'new', 's': 'a', 'ty': s.ty, 'v': s.obj}]
    ops += [{'op': 'call', 's': 'a', 'm': 'save_state'}] * s.rows0
    ops += [{'op': 'clone', 's': 'a', 'to': 'b'}, {'op': 'clone', 's': 'a', 'to': 'c'}, {'op': 'dump', 's': 'a'}]
    ops += [{'op': 'evals'}, {'op': 'call', 's': 'a', 'm': 'walk'}, {'op': 'evalspans'}, {'op': 'dump', 's': 'a'}, {'op': 'call', 's': 'a', 'm': 'dt_mean'}, {'op': 'call', 's': 'a', 'm': 'walk'}, {'op': 'dump', 's': 'a'}]
    if s.twin:
        sc = s.obj['solver_type']['sc']
        alt = copy.deepcopy(s.obj['solver_type'])
        if sc['save']: alt['sc'].update(save=False, save_states=random.Random(sid).random() < .5)
        else: alt['sc'].update(save=True, save_states=random.Random(sid).random() < .7)
        ops += [{'op': 'patch', 's': 'b', 'v': {'solver_type': alt}}, {'op': 'call', 's': 'b', 'm': 'walk'}, {'op': 'dump', 's': 'b'}]
    if s.rerun == 'again': ops += [{'op': 'call', 's': 'c', 'm': 'walk'}]
    elif s.rerun: ops += other_way(sid, s)
    if s.rerun: ops += [{'op': 'dump', 's': 'c'}]
    return {'id': sid, 'ops': ops}

def other_way(sid, s):
    """the same run of slot c in other ways: interrupted after every row (saved in an exact format, discarded, reloaded), by hand,
    or with the schedule extended piece by piece"""
    r = random.Random(sid * 7 + 1)
    o = s.obj
    sched = [unhx(x) for x in o['t_report']]
    i0, t0 = o['state']['i'], unhx(o['state']['time'])
    if t0 >= sched[-1] and s.rerun != 'beside': return [{'op': 'call', 's': 'c', 'm': 'walk'}]
    n = next((j for j in range(i0, len(sched)) if sched[j] >= sched[-1]), i0) + 1 - i0
    ops = []
    others = ['e%d' % k for k in range(len(s.others))]
    for k, o2 in zip(others, s.others): ops.append({'op': 'new', 's': k, 'ty': o2.ty, 'v': o2.obj})
    if s.rerun == 'among':
        like = r.random() < .5
        for _ in range(n):
            if like:
                # the same state, other equations
                ops += [{'op': 'clone', 's': 'c', 'to': 'f'}, {'op': 'patch', 's': 'f', 'v': altered(r, s)},
                        {'op': 'call', 's': 'f', 'm': r.choice(['hand', 'hand', 'update_derivs', 'walk'])}, {'op': 'call', 's': 'c', 'm': 'hand'}]
                continue
            k = r.choice(others)
            ops += [{'op': 'clone', 's': k, 'to': 'f'}, {'op': 'call', 's': 'f', 'm': 'walk'}, {'op': 'call', 's': 'c', 'm': 'hand'}]
    elif s.rerun == 'beside':
        if r.random() < .5:
            ops.append({'op': 'clone', 's': 'c', 'to': 'e9'})
            others.append('e9')
        ops.append({'op': 'beside', 's': ['c'] + others, 'm': 'walk'})
    elif s.rerun == 'resume':
        for k in range(n):
            ops += [{'op': 'call', 's': 'c', 'm': 'hand'}, {'op': 'trip', 's': 'c', 'to': 'd', 'fmt': r.choice(['yaml', 'bin']), 'ty': s.ty},
                    {'op': 'drop', 's': 'c'}, {'op': 'clone', 's': 'd', 'to': 'c'}, {'op': 'drop', 's': 'd'}]
            if r.random() < .2:
                ops += [{'op': 'call', 's': 'c', 'm': 'walk'}]
                break
    elif s.rerun == 'hand':
        ops += [{'op': 'call', 's': 'c', 'm': 'hand'}] * n
    else:
        cuts = sorted(r.sample(range(i0 + 1, len(sched) + 1), min(len(sched) - i0, r.randint(1, 3))))
        for c in cuts: ops += [{'op': 'patch', 's': 'c', 'v': {'t_report': o['t_report'][:c]}}, {'op': 'call', 's': 'c', 'm': 'walk'}]
        ops += [{'op': 'patch', 's': 'c', 'v': {'t_report': o['t_report']}}, {'op': 'call', 's': 'c', 'm': 'walk'}]
    return ops
def altered(r, s):
    """other parameters for the system of a scenario"""
    T, v = TYPES[s.ty], {}
    for f, k in T['states']:
        if k in CAP:
            x = v.setdefault(f, {})
            for g in CAP[k][:-1]: x = x.setdefault(g, {})
            x[CAP[k][-1]] = hx(unhx(at(s.obj, (f,) + CAP[k])) * r.uniform(1.1, 2))
    for f, _, _, _ in T['links']: v[f] = {'h': hx(unhx(s.obj[f]['h']) * r.uniform(.3, .9))}
    if T['rhs']: v['rhs'] = {'eqs': [[dict(t, c=hx(unhx(t['c']) * r.uniform(.3, .9))) for t in eq] for eq in s.obj['rhs']['eqs']]}
    if 'forced' in s.obj: v['forced'] = [dict(f, poly=[hx(unhx(c) * r.uniform(.3, .9)) for c in f['poly']]) for f in s.obj['forced']]
    return v
def outcome(s, res):
    """(dump before, dump after, spans, mean, twin dump, rerun dump) or a string saying how it failed"""
    if res.get('hang'): return 'does not return' if not res.get('crash') else 'the process died'
    if res.get('skipped'): return None
    o = res['out']
    for k, x in enumerate(o):
        if 'panic' in x: return 'panic: ' + x['panic']
        if 'err' in x: return 'error: ' + x['err']
    o = o[s.rows0:]
    d0, spans, d1 = o[3]['ok'], o[6]['ok'], o[7]['ok']
    mean = o[8]['ok']
    mean = mean[0] if mean else None
    more = o[10]['ok']
    k = 11
    twin = rerun = None
    if s.twin: twin = o[k + 2]['ok']; k += 3
    if s.rerun: rerun = o[-1]['ok']
    return d0, d1, spans, mean, twin, rerun, more

def comparable_rows(ty, d):
    return [at(d, p) for p in hist_paths(ty)] + [states(ty, d), derivs(ty, d), flows(ty, d), d['state']]

MAXSTEPS = 120
def encode(sid, s, got):
    """events of one walk; returns (words, number of events)"""
    d0, d1, spans, mean, twin, rerun, more = got
    ty = s.ty
    flags = s.flags
    sc = conf(d1)
    if sc and sc['save']: flags |= F_RECORDED
    if sc and sc['save'] and sc['save_states']: flags |= F_STATES
    w, n = enc_begin(sid, ty, d0, flags, s.ref), 1
    n0 = min(hist_len(d0['history']))
    nrec0 = min(hist_len(conf(d0)['history'])) if sc else 0
    rs = rows(ty, d1)[n0:]
    r = nrec0
    t = unhx(d0['state']['time'])
    spans = {x[0]: x for x in spans}
    i0 = d0['state']['i']
    hl = min(hist_len(sc['history'])) if sc else 0
    # what happened in each interval, and then its row
    parts = []
    for j, row in enumerate(rs):
        v, items, m = [], [], 1
        trow = unhx(row[1])
        if TYPES[ty]['log'] and i0 + j in spans:
            x = spans[i0 + j]
            v += [6, x[0], hbits(x[1]), hbits(x[2]), x[3]]; m += 1
        if sc and sc['save']:
            h = sc['history']
            # entries that start before the row's time belong to its interval
            while r < hl and unhx(h['t_curr'][r]) < trow:
                v += enc_step(h, r); m += 1
                items.append([2 + 256 * h['n_iter'][r], hbits(h['t_curr'][r]), hbits(h['dt'][r])])
                r += 1
        items.append([3, row[0], hbits(row[1])])
        parts.append((v + enc_row(row), m, items))
    def fit(ps, words, events):
        """how many of the parts can be checked in full"""
        k = 0
        for v, m, _ in ps:
            words -= len(v); events -= m
            if words < 0 or events < 0: break
            k += 1
        return k
    truncated = False
    chunks = []
    if s.skim:
        # rows and steps only, over several numbers; the last of them ends the walk
        head = tail = len(parts)
        k = 0
        if len(w) > 800:
            chunks.append(w)
            w = [9]; n += 1
        while k < len(parts):
            items = list(parts[k][2]); k += 1
            while k < len(parts) and len(items) + len(parts[k][2]) < 1500: items += parts[k][2]; k += 1
            w += [8, len(items)] + [x for l in items for x in l] + [hbits(y) for y in rs[k - 1][2]]; n += 1
            chunks.append(w)
            w = [9]; n += 1
        parts = []
    elif fit(parts, MAXWORDS - 900 - len(w), MAXSTEPS + len(parts)) == len(parts): head = tail = len(parts)
    else:
        # a long walk: its beginning and its end in full, what lies between step by step
        head = fit(parts, 1500, 60)
        tail = len(parts) - min(fit(parts[::-1], 900, 40), len(parts) - head - 1)
    for v, m, _ in parts[:head]: w += v; n += m
    if head < tail:
        items = [x for _, _, l in parts[head:tail] for x in l]
        if len(w) + 3 * len(items) + sum(len(v) for v, _, _ in parts[tail:]) > MAXWORDS - 300: truncated = True
        else:
            w += [8, len(items)] + [x for l in items for x in l] + [hbits(y) for y in rs[tail - 1][2]]; n += 1
            for v, m, _ in parts[tail:]: w += v; n += m
    if not truncated:
        while sc and sc['save'] and r < hl and r < nrec0 + 2 * MAXSTEPS:
            w += enc_step(sc['history'], r); n += 1; r += 1
        tm = 0
        if twin is not None and comparable_rows(ty, twin) != comparable_rows(ty, d1): tm |= 1
        # the twin that does not record keeps its record
        if twin is not None and not conf(twin)['save'] and conf(twin)['history'] != conf(d0)['history']: tm |= 32
        if rerun is not None and rerun != d1: tm |= {'again': 2, 'resume': 4, 'hand': 8, 'extend': 16, 'among': 256, 'beside': 512}[s.rerun]
        if more != d1: tm |= 64
        if d0 != d1: tm |= 128
        w += enc_end(ty, d0, d1, n0, nrec0, mean, tm); n += 1
    if chunks: return chunks + [w], n
    return w, n


def strict_mask(ty, d0, d1):
    """changed-fields mask that also counts added history rows"""
    m = changed_mask(ty, d0, d1)
    if any(at(d0, p) != at(d1, p) for p in hist_paths(ty)): m |= 8
    return m
def plan_direct(sid, s):
    ops = [{'op': 'new', 's': 'a', 'ty': s.ty, 'v': s.obj}, {'op': 'dump', 's': 'a'}]
    m = s.obj['solver_type']['m']
    for x in s.steps: ops += [{'op': 'call', 's': 'a', 'm': m, 'a': hx(x)}, {'op': 'dump', 's': 'a'}]
    return {'id': sid, 'ops': ops}
def encode_direct(sid, s, res):
    """events of a sequence of steps called one by one; or how it failed"""
    if res.get('hang'): return 'does not return' if not res.get('crash') else 'the process died'
    if res.get('skipped'): return None
    o = res['out']
    for x in o:
        if 'panic' in x: return 'panic: ' + x['panic']
    ty, d = s.ty, o[1]['ok']
    sc = conf(d)
    w, n = enc_begin(sid, ty, d, s.flags | (F_RECORDED if sc and sc['save'] else 0), s.ref), 1
    for k, x in enumerate(s.steps):
        r, e = o[2 + 2 * k]['ok'], o[3 + 2 * k]['ok']
        sc0, sc = conf(d), conf(e)
        v = [5, METHODS.index(s.obj['solver_type']['m']), hbits(hx(x)), hbits(r) if sc else hbits(hx(x)), hbits(e['state']['time'])]
        if sc:
            q = sc['state']
            v += [q['n_iter']] + enc_opt(q['norm_err']) + enc_opt(q['norm_err_rel']) + [hbits(q['dt'])]
        else: v += [0] * 6
        v += [strict_mask(ty, d, e) | (1 if d['state']['i'] != e['state']['i'] else 0)]
        v += [min(hist_len(sc['history'])) - min(hist_len(sc0['history'])) if sc else 0]
        v += [hbits(y) for y in states(ty, e) + derivs(ty, e) + flows(ty, e)]
        w += v; n += 1
        d = e
    return w, n
def plan_eval(sid, s):
    return {'id': sid, 'ops': [{'op': 'new', 's': 'a', 'ty': s.ty, 'v': s.obj}, {'op': 'dump', 's': 'a'}, {'op': 'call', 's': 'a', 'm': 'update_derivs'}, {'op': 'dump', 's': 'a'}]}
def encode_eval(sid, s, res):
    if res.get('hang'): return 'does not return'
    if res.get('skipped'): return None
    o = res['out']
    for x in o:
        if 'panic' in x: return 'panic: ' + x['panic']
    d, e = o[1]['ok'], o[3]['ok']
    w = enc_begin(sid, s.ty, d, s.flags, s.ref)
    m = strict_mask(s.ty, d, e) | (1 if d['state'] != e['state'] else 0)
    w += [7, hbits(d['state']['time']), m] + [hbits(y) for y in states(s.ty, d) + states(s.ty, e) + derivs(s.ty, e) + flows(s.ty, e)]
    return w, 2

# ---- generation --------------------------------------------------------------------------------------------------------
def rnd_sched(r, t0, span, kind=None):
    """report times after t0 over about `span`: even, uneven, clustered, with repeated or already passed entries"""
    kind = kind or r.choice(['even', 'uneven', 'uneven', 'cluster', 'odd', 'zero'])
    n = r.randint(1, 6)
    if kind in ('even', 'zero'):
        xs = [t0 + span * (k + (kind == 'even')) / n for k in range(n + (kind == 'zero'))]
    elif kind == 'uneven':
        xs = sorted(t0 + span * r.random() for _ in range(n)) + [t0 + span]
    elif kind == 'cluster':
        xs = sorted(t0 + span * r.choice([.3, .3 + 1e-3 * r.random(), .7, .7 + 1e-4 * r.random(), r.random()]) for _ in range(n)) + [t0 + span]
    else:
        xs = sorted(t0 + span * r.random() for _ in range(n)) + [t0 + span]
        for _ in range(r.randint(1, 2)):
            k = r.randrange(len(xs))
            xs.insert(k + 1, r.choice([xs[k], xs[k], t0, xs[0]]) if k + 1 < len(xs) else xs[k])
    return xs

def simulate(ty, y, t0, t1, caps, conds, rhs, forced, n=60):
    """rough trajectory, only to keep generated problems within sensible magnitudes"""
    f = field(ty, caps, conds, rhs, forced)
    h = (t1 - t0) / n
    big = max(map(abs, y))
    t = t0
    try:
        for _ in range(n):
            k1 = f(t, y); k2 = f(t + h / 2, [a + h / 2 * b for a, b in zip(y, k1)])
            y = [a + h * b for a, b in zip(y, k2)]
            t += h
            m = max(map(abs, y))
            if m != m or m > 1e200: return float('inf')
            big = max(big, m)
    except OverflowError:
        return float('inf')
    return big
def field(ty, caps, conds, rhs, forced):
    T = TYPES[ty]
    names = [f for f, _ in T['states']]
    def f(t, y):
        y = list(y)
        for j, p in forced or []: y[j] = sum(c * t**k for k, c in enumerate(p))
        k = [0.0] * len(y)
        for e, (_, _, a, b) in enumerate(T['links']):
            a, b = names.index(a), names.index(b)
            q = conds[e] * (y[a] - y[b])
            k[a] -= q / caps[a]; k[b] += q / caps[b]
        for i, eq in enumerate(rhs or []):
            for c, tp, ys in eq:
                x = c * t**tp
                for j in ys: x *= y[j]
                k[i] += x
        return k
    return f

def tame(p, sol, sched):
    """do steps of the given settings keep the solution and small differences of it within bounds? (only where it is not the error
    control that sees to it)"""
    end = max(sched)
    if not end > p['t0']: return True
    if sol['m'] in ('bs', 'ck'):
        sc = sol['sc']
        if unhx(sc['rtol']) < 5e-3 and unhx(sc['atol']) <= 2e-3 * p['scale'] and sc['max_iter'] > 3: return True
        h = min(unhx(sc['dt_max']), p['span'])
    else: h = unhx(sol['dt'])
    ts = [p['t0']]
    for t in sched:
        while ts[-1] < t and len(ts) < 400: ts.append(min(t, ts[-1] + h) if t - ts[-1] < h * 1.000001 or ts[-1] + h == ts[-1] else ts[-1] + h)
    f = field(p['ty'], p['caps'], p['conds'], p['rhs'], p['forced'])
    big = max(map(abs, p['y'])) or 1e-300
    try:
        y, z = p['y'], [x + 1e-6 * big * (1 if i % 2 else -1) for i, x in enumerate(p['y'])]
        for a, b in zip(ts, ts[1:]):
            d = b - a
            y, z = [[u + d / 2 * (k + l) for u, k, l in zip(q, k1, f(b, [u + d * k for u, k in zip(q, k1)]))] for q in (y, z) for k1 in [f(a, q)]]
            if not max(map(abs, y)) <= 1e3 * max(p['scale'], big): return False
            if not max(abs(u - v) for u, v in zip(y, z)) <= 1e-3 * big: return False
    except OverflowError:
        return False
    return True

def bounded(p, steps):
    """number of the given steps after which the solution is still far from overflow"""
    f = field(p['ty'], p['caps'], p['conds'], p['rhs'], p['forced'])
    t, y = p['t0'], p['y']
    big = 1e12 * max([p['scale']] + list(map(abs, y)))
    for n, h in enumerate(steps):
        try:
            k1 = f(t, y)
            k2 = f(t + h / 2, [a + h / 2 * k for a, k in zip(y, k1)])
            k3 = f(t + h / 2, [a + h / 2 * k for a, k in zip(y, k2)])
            k4 = f(t + h, [a + h * k for a, k in zip(y, k3)])
            y = [x + h / 6 * (a + 2 * b + 2 * c + d) for x, a, b, c, d in zip(y, k1, k2, k3, k4)]
        except OverflowError: return n
        if not max(map(abs, y)) < big: return n
        t += h
    return len(steps)

def rnd_rhs(r, n, lin=False, scale=1.0):
    eqs = []
    for i in range(n):
        eq = []
        for _ in range(r.randint(1, 3)):
            deg = r.choice([0, 1, 1, 1, 2] if not lin else [1, 1, 0])
            ys = [r.randrange(n) for _ in range(deg)]
            c = r.uniform(-1.2, 1.2) / (1 if deg < 2 else 3 * scale) * (scale if deg == 0 else 1)
            eq.append((c, r.choice([0, 0, 1, 2, 3]) if deg < 2 else r.choice([0, 0, 1]), ys))
        if r.random() < .7: eq.append((-r.uniform(.2, 1.5), 0, [i]))
        eqs.append(eq)
    return eqs

def rnd_problem(r, kind=None, types=None):
    """a system with its parameters; kind: poly | net | forced"""
    while True:
        ty = r.choice(types) if types else r.choice(['P1', 'P2', 'P3', 'P6', 'P13', 'P2', 'P3', 'Ring4', 'Star', 'Par2', 'Duct', 'Chain', 'System3TM', 'System3TMWithBC', 'Star'])
        T = TYPES[ty]
        n = len(T['states'])
        scale = r.choice([1, 1, 1, 1, 1, 1, 30, 1e4, 1e-3, 1e-12, 1e-18])
        t0 = r.choice([0, 0, 0, 0.5, 1.25, -0.75, 3.7]) if not T['sine'] else r.choice([0, 0, 0.1, 0.5, -0.2, -0.05, 1.1, 2.05, 2.9])
        span = r.choice([0.5, 1, 2, 1.7])
        caps = conds = rhs = forced = None
        if T['links']:
            caps = [r.choice([.5, 1, 2, r.uniform(.3, 4)]) for _ in range(n)]
            conds = [r.choice([1, r.uniform(.1, 1.5), r.uniform(.1, 1.5), 0]) if r.random() < .9 else r.uniform(.1, 1.5) for _ in T['links']]
            if r.random() < .25:
                # the same network in other units of the quantity that flows
                q = r.choice([2.0 ** -60, 2.0 ** -30, 1e-6, 1e-4, 1e5, 2.0 ** 30, 2.0 ** 60])
                caps, conds = [c * q for c in caps], [c * q for c in conds]
            if T['sine']: span, scale = r.choice([.1, .2, .3]), r.choice([1, 10])
        if T['rhs'] and (not T['links'] or r.random() < .5): rhs = rnd_rhs(r, n, scale=scale)
        if T['forced'] and r.random() < .4:
            forced = [(r.randrange(n), [r.uniform(-2, 2) * scale for _ in range(r.randint(1, 4))])]
            if T['links'] and r.random() < .3: forced.append(((forced[0][0] + 1) % n, [r.uniform(-2, 2) * scale, 1.0 * scale]))
        y = [r.uniform(-2, 2) * scale for _ in range(n)]
        u = r.random()
        if u < .15: y = [round(x / scale * 4) / 4 * scale for x in y]
        elif u < .25: y = [scale * r.choice([0, 1, 20.]) + x * r.choice([1e-3, 1e-6, 1e-9, 1e-12, 1e-30]) for x in y]   # nearly equal
        b = simulate(ty, y, t0, t0 + span, caps, conds, rhs, forced)
        if b < 60 * scale: break
    if not T['sine'] and r.random() < .2:
        # the same problem in another unit of time
        q = r.choice([2.0 ** -40, 2.0 ** -20, 2.0 ** 12, 2.0 ** 20])
        t0, span = t0 * q, span * q
        if conds: conds = [c / q for c in conds]
        if rhs: rhs = [[(c / q ** (tp + 1), tp, ys) for c, tp, ys in eq] for eq in rhs]
        if forced: forced = [(j, [c / q ** k for k, c in enumerate(f)]) for j, f in forced]
    return dict(ty=ty, y=y, t0=t0, span=span, caps=caps, conds=conds, rhs=rhs, forced=forced, scale=scale, i0=0)

def rnd_solver(r, m, span, scale=1.0, save=None, mode=None):
    if m not in ('bs', 'ck'):
        dt = r.choice([span / 7.3, span / 16, span / 33, span / 3, 2 * span, span / 10, span * r.uniform(.03, .5)])
        return fixed(m, dt)
    mode = mode or r.choice(['normal', 'normal', 'abs', 'exhaust', 'cap', 'tight', 'mixed'])
    dt = span * r.choice([.05, .3, .02, 2, .11])
    dt_max = r.choice([span / 4, span * 10, 10.0 if span < 100 else span, span / 9])
    rtol = r.choice([1e-3, 1e-4, 1e-5] + ([1e-6, 1e-8] if m == 'ck' else []))
    atol = r.choice([1e-6, 1e-8, 1e-9, 1e-10, 1e-4]) * scale
    mi = r.choice([1, 2, 3, 5, 5, 10, 40, 255, 0])
    if mode == 'abs': rtol, atol = r.choice([1e-13, 1e-9, 0.0]), r.choice([1e-3, 1e-4, 1e-2, 1e-5]) * scale
    elif mode == 'exhaust':
        dt, dt_max, mi = span * r.choice([.5, 1, .1]), span, r.choice([0, 1, 2, 3])
        rtol, atol = r.choice([1e-6, 1e-5, 1e-8] if m == 'ck' else [1e-5, 1e-4, 3e-5]), r.choice([1e-8, 1e-11]) * scale
    elif mode == 'cap': dt_max, rtol = span / r.choice([8, 13, 30]), r.choice([1e-1, 1e-2, 10.0])
    elif mode == 'tight': dt, dt_max, mi, rtol = span * r.choice([1, 2]), span * 10, r.choice([10, 40, 255]), (1e-7 if m == 'ck' else 1e-5)
    elif mode == 'mixed': dt, rtol, atol, mi = span * r.choice([.3, 1]), r.choice([1e-4, 1e-5]), r.choice([1e-4, 1e-5, 1e-6]) * scale, r.choice([2, 5, 255])
    save = r.random() < .75 if save is None else save
    return adaptive(m, dt, dt_max, mi, rtol, atol, save, r.random() < .6)

def adaptive_loose(r, m, span, scale, save=None):
    """settings that need few steps"""
    return adaptive(m, span * r.choice([.1, .3]), span, r.choice([5, 10]), r.choice([1e-2, 1e-3]), r.choice([1e-4, 1e-6]) * scale,
                    r.random() < .75 if save is None else save, r.random() < .6)

def scenario(r, m, prob=None, kind=None, types=None, save=None, twin=None, rerun=None, sched=None, flags=0, ref=0, solver=None, mode=None, steps=()):
    for _ in range(40):
        p = prob(r) if callable(prob) else prob or rnd_problem(r, kind, types)
        sc = sched if sched is not None else rnd_sched(r, p['t0'], p['span'])
        sol = solver or rnd_solver(r, m, p['span'], p['scale'], save, mode)
        if sched is not None or solver or TYPES[p['ty']]['sine'] or tame(p, sol, sc): break
    i0 = p['i0']
    if sched is None and r.random() < .15:
        # the walk starts in the middle of its schedule
        i0 = r.randint(1, 3)
        sc = sorted(p['t0'] - r.random() for _ in range(i0)) + sc
    T = TYPES[p['ty']]
    if T['links'] and not T['sine'] and not p['forced'] and not any(p['rhs'] or []) and all(k in CAP for _, k in T['states']): flags |= F_CLOSED
    obj = build(p['ty'], p['y'], sol, sc, p['t0'], i0, p['caps'], p['conds'], p['rhs'], p['forced'])
    if not flags & F_REST and r.random() < .3:
        # derivatives and flows left over from other states
        for f, k in T['states']:
            if k in CAP: put(obj, (f,) + DER[k], hx(r.uniform(-5, 5) * p['scale'] * r.choice([1, 0])))
        for f, _, _, _ in T['links']: put(obj, (f, 'state', 'q'), hx(r.uniform(-5, 5)))
    ad = m in ('bs', 'ck')
    if ad and r.random() < .25:
        # what an earlier step left
        c = obj['solver_type']['sc']
        c['state'].update(n_iter=r.choice([c['max_iter'], 1, 3, 255]), norm_err=r.choice([None, [hx(r.random())], [hx(0.0)]]), norm_err_rel=r.choice([None, [hx(r.random())], [hx(0.0)]]),
                          t_curr=hx(p['t0'] - r.random()), states=[hx(r.random())] * r.choice([0, 2]))
    if ad and r.random() < .2:
        # a record left by earlier runs, with gaps where it was switched off
        n = r.randint(1, 3)
        obj['solver_type']['sc']['history'] = {'dt': [hx(r.uniform(.01, .3)) for _ in range(n)], 't_curr': [hx(p['t0'] - 5 * (n - k) - r.random()) for k in range(n)],
            'n_iter': [r.randint(1, 9) for _ in range(n)], 'norm_err': [r.choice([None, [hx(r.random())]]) for _ in range(n)],
            'norm_err_rel': [r.choice([None, [hx(r.random())]]) for _ in range(n)], 'states': [[hx(r.random())] * r.choice([0, 2]) for _ in range(n)]}
        if r.random() < .5:
            # ... the last of them like the first one to come
            obj['solver_type']['sc']['history']['t_curr'][-1] = hx(p['t0'])
            obj['solver_type']['sc']['history']['dt'][-1] = obj['solver_type']['sc']['state']['dt']
    return Scen(skim='far' in p, rows0=r.choice([0, 0, 0, 1, 3]), ty=p['ty'], obj=obj, flags=flags, ref=ref, twin=ad and (r.random() < .5 if twin is None else twin), rerun=(r.choice(['again', 'resume', 'hand', 'extend', None, None, None, None]) if rerun is None else rerun), steps=steps)

def at_rest(r, types=None):
    """all potentials equal, nothing prescribed: the network must stay exactly there"""
    while True:
        p = rnd_problem(r, types=types or ['Ring4', 'Par2', 'Chain', 'System3TM', 'Duct', 'Star'])
        p['rhs'] = p['forced'] = None
        y = r.choice([0.0, 20.0, -3.3, r.uniform(-100, 100)])
        p['y'] = [y] * len(p['y'])
        return p

# ---- crafted problems ------------------------------------------------------------------------------------------------
def sysprob(ty, rhs, y, t0=0.0, span=1.0, scale=1.0, forced=None):
    return dict(ty=ty, y=y, t0=t0, span=span, caps=None, conds=None, rhs=rhs, forced=forced, scale=scale, i0=0)
def pad(r, ty, eqs):
    """the given equations for the first states of a system of type `ty`, others constant or simple functions of time"""
    n = len(TYPES[ty]['states'])
    return eqs + [[(r.uniform(-1, 1), 0, [])] for _ in range(n - len(eqs))]
def polynomial(r, m, direct=False):
    """right-hand side a polynomial in time of degree below the order: integrated exactly"""
    p = ORDER[m]
    ty = r.choice(['P1', 'P2', 'P3', 'P6', 'P13'])
    n = len(TYPES[ty]['states'])
    eqs = [[(r.uniform(-3, 3), r.choice(range(p)), []) for _ in range(r.randint(1, 3))] + [(r.uniform(-2, 2), p - 1, [])] for _ in range(n)]
    t0 = r.choice([0, 0, .25, -.6])
    return sysprob(ty, eqs, [r.uniform(-2, 2) for _ in range(n)], t0, r.choice([.5, 1, 1.5]))
def zero_increment(r, m):
    """problems whose increment vanishes over the first step while the error estimate need not; returns (problem, step)"""
    c = r.choice([0.0, .5, 1.0, -2.0, 1e-3, 8.0])
    z = r.choice([1.0, 2.0, .25])
    if m == 'bs':  # 2 - 4t + c t (t - 1/2) (t - 3/4), step 1
        p = [2.0, -4.0 + c * .375, -c * 1.25, c]
        h = 1.0
    else:          # c t (t - 3/16) (t - 3/8) (t - 35/64), step 5/8
        a, b, d = .1875, .375, .546875
        p = [0.0, -c * a * b * d, c * (a * b + a * d + b * d), -c * (a + b + d), c]
        h = .625
    ty = r.choice(['P1', 'P2', 'P6', 'P13'])
    n = len(TYPES[ty]['states'])
    eq = [(z * x, k, []) for k, x in enumerate(p) if x != 0]
    eqs = [eq] + [[(1.0 * r.choice([0, 1]) * z * x, k, []) for k, x in enumerate(p) if x != 0] for _ in range(n - 1)]
    return sysprob(ty, eqs, [r.choice([0.0, 1.0, 2.5]) for _ in range(n)], 0.0, h), h

def wall(r, m):
    """a decay whose equations have no value below zero, where steps that are too long lead; returns (problem, solver)"""
    ty = r.choice(['P1', 'P2', 'P3', 'P13'])
    span = r.choice([.5, 1, 2])
    k = r.uniform(2, 20) / span
    y = r.choice([1.0, 2.5, 30.0, 1e-3])
    n = len(TYPES[ty]['states'])
    j = r.randrange(n)
    eqs = [[(r.uniform(-1, 1) * y, 0, [])] for _ in range(n)]
    eqs[j] = [(-k, 0, [j])]
    if k * span < 12 and r.random() < .5: eqs[j].append((r.uniform(0, .5) * k * y, 0, []))
    w = r.choice([j, j, r.randrange(n)])
    eqs[w].append((1.0, r.choice([254, 255, 255]), [j]))
    p = sysprob(ty, eqs, [y * (1 if i == j else r.uniform(-1, 1)) for i in range(n)], r.choice([0.0, .5]), span, y)
    sol = adaptive(m, span * r.choice([.3, .5, 1, 3]), span * 10, r.choice([10, 40, 255]), r.choice([1e-3, 1e-4, 1e-5]), 1e-300, r.random() < .8, r.random() < .6)
    return p, sol

NODES = dict(euler=[0, 1], heun=[0, 1], midpoint=[0, .5], ralston=[0, 2 / 3], rk4=[0, .5, 1], bs=[0, .5, .75, 1], ck=[0, .2, .3, .6, 1, .875])
def coincidences(m):
    """the stages at which nothing changes: one, or two of them"""
    t = sorted(NODES[m])
    return [[a] for a in t] * 2 + [[a, b] for a in t for b in t if a < b] + ['sum'] * 4
def coincide(r, m, zeros=None):
    """derivatives that agree at two of the method's stages and differ at the others, vanish at given ones, or cancel over
    the step; returns (problem, step)"""
    ty = r.choice(['P1', 'P2', 'P6'])
    n = len(TYPES[ty]['states'])
    h = {'ralston': 3.0, 'ck': 40.0}.get(m, 1.0) * r.choice([1, .5, 2, .125])
    eqs = []
    for i in range(n):
        if zeros is None:
            a, b = r.sample(NODES[m], 2)
            a, b, c, d = a * h, b * h, r.choice([0, 1.0, -2.0, r.uniform(-3, 3)]), r.choice([1.0, -2.0, .5]) / h ** 2
            eqs.append([(c + d * a * b, 0, []), (-d * (a + b), 1, []), (d, 2, [])])
        elif zeros == 'sum':
            d = r.choice([1.0, -2.0, .5, 16.0, -8.0]) / h
            eqs.append([(-d * h / 2 if m != 'euler' else 0, 0, []), (d, 1, [])])
        elif len(zeros) == 1:
            a, d = zeros[0] * h, r.choice([1.0, -2.0, .5, -1.0]) / h
            eqs.append([(-d * a, 0, []), (d, 1, [])])
        else:
            a, b, d = zeros[0] * h, zeros[1] * h, r.choice([1.0, -2.0, .5, -1.0]) / h ** 2
            eqs.append([(d * a * b, 0, []), (-d * (a + b), 1, []), (d, 2, [])])
    return sysprob(ty, eqs, [r.uniform(-1, 1) for _ in range(n)], 0.0, h), h

def edges(binary, bases):
    """pairs of executions with the same first attempt: one that takes it, and one with a tolerance at or next to its estimates"""
    plans = [plan_direct(i, s) for i, s in enumerate(bases)]
    out = []
    got = run_scenarios(binary, plans)
    for i, s in enumerate(bases):
        res = got[i]
        r = random.Random(i)
        o = res.get('out', [])
        if len(o) < 4 or 'ok' not in o[3]: continue
        q = conf(o[3]['ok'])['state']
        if q['norm_err'] is None: continue
        err = unhx(q['norm_err'][0])
        rel = None if q['norm_err_rel'] is None else unhx(q['norm_err_rel'][0])
        if not (err > 0 and math.isfinite(err)): continue
        below, above = math.nextafter(err, 0), math.nextafter(err, 1e300)
        cases = [(1e-300, err), (1e-300, below), (1e-300, above)]
        # ... and by more than that
        cases += [(1e-300, err / r.uniform(1, 3)), (1e-300, err * r.uniform(1, 3))]
        if rel is not None: cases += [(rel / r.uniform(1, 3), 1e-300), (rel / r.uniform(1, 12), 1e-300), (rel * r.uniform(1, 3), 1e-300)]
        if rel is not None: cases += [(rel, 1e-300), (math.nextafter(rel, 0), 1e-300), (math.nextafter(rel, 1), 1e-300), (rel, err)]
        rtol, atol = r.choice(cases)
        e = copy.deepcopy(s)
        e.obj['solver_type']['sc'].update(rtol=hx(rtol), atol=hx(atol), max_iter=min(255, q['n_iter'] + r.choice([1, 4, 250])))
        s.flags |= F_BASE
        e.flags |= F_EDGE
        out.append([s, e])
    return out

def late(r, binary, n):
    """single steps that take several attempts, some of each number of them; found among many by running them"""
    pool = []
    for k in range(n * 14):
        m = ('bs', 'ck')[k % 2]
        p = rnd_problem(r)
        sol = adaptive(m, p['span'] * r.choice([.5, 1, 2]), p['span'] * 10, r.choice([20, 60, 255]), 10 ** r.uniform(*r.choice([(-8, -1), (-16.5, -9)])), r.choice([0.0, 1e-300, 1e-9 * p['scale'] * r.random() ** 4]), r.random() < .8, r.random() < .5)
        s = scenario(r, m, prob=p, solver=sol, sched=[p['t0'] + 1000. * max(1., p['span'])])
        s.steps = [p['span'] * r.choice([.5, 1, 2])]
        pool.append(s)
    got = run_scenarios(binary, [plan_direct(i, s) for i, s in enumerate(pool)])
    by = {}
    for i, s in enumerate(pool):
        o = got[i].get('out', [])
        if len(o) < 4 or 'ok' not in o[3]: k = 0
        else: k = min(8, conf(o[3]['ok'])['state']['n_iter'])
        by.setdefault((k, s.obj['solver_type']['m']), []).append(s)
    by = {k: v for k, v in by.items() if k[0] > 2 or k[0] == 0}
    out = []
    while len(out) < n and any(by.values()):
        for k in sorted(by):
            if by[k]: out.append(by[k].pop())
    return out

def slivers(r, m):
    """report times just after, just before and at multiples of the step size, or very close to each other"""
    while True:
        p = rnd_problem(r, types=['P1', 'P2', 'P3', 'Ring4', 'Star', 'Duct'])
        dt = p['span'] / r.choice([4, 7, 10, 13.7])
        t, sc = p['t0'], []
        while t < p['t0'] + p['span']:
            t += r.choice([0, 1, 1, 2, 3]) * dt + dt * r.choice([1, -1, 1, 1]) * r.choice([1e-3, 1e-5, 1e-7, 1e-9, 1e-11])
            sc.append(t)
        if m in ('bs', 'ck'): sol = adaptive(m, dt, dt, r.choice([1, 5]), 1e6, 1e-9, True, r.random() < .5)
        else: sol = fixed(m, dt)
        if tame(p, sol, sc): break
    return scenario(r, m, prob=p, sched=sc, solver=sol, twin=False, rerun=False)

def far(r, m, n, rows=3, record=False):
    """about n steps to a few report times"""
    d = ORDER[m] - 1
    p = sysprob('P2', [[(r.uniform(-2, 2), d, []), (1.0, 0, [])], [(r.uniform(.5, 2), 0, [])]], [r.uniform(-1, 1), 0.0], 0.0, 1.0)
    sol = adaptive(m, 1.0 / n, 1.0 / n, 5, 1e9, 1e9, record) if m in ('bs', 'ck') else fixed(m, 1.0 / n)
    sched = [1.0] if rows == 1 else [(k + r.random() * .5) / rows for k in range(rows)] + [1.0]
    return scenario(r, m, prob=dict(p, far=1), sched=sched, solver=sol, twin=False, rerun=False, flags=F_EXACT)

def same_start(r, m):
    """a system set back to its start that kept its record: the first step is like the last one recorded"""
    p = rnd_problem(r)
    dt = p['span'] * r.choice([.05, .1, .2])
    sol = adaptive(m, dt, p['span'], r.choice([1, 5]), r.choice([10., 1e3]), 1e-9 * p['scale'], True, r.random() < .5)
    s = scenario(r, m, prob=p, solver=sol, sched=[p['t0'] + 1000. * max(1., p['span'])])
    n = r.randint(1, 3)
    s.obj['solver_type']['sc']['history'] = {'dt': [hx(dt)] * n, 't_curr': [hx(p['t0'] - dt * (n - 1 - k)) for k in range(n)],
        'n_iter': [1] * n, 'norm_err': [[hx(r.random())] for _ in range(n)], 'norm_err_rel': [[hx(r.random())] for _ in range(n)],
        'states': [[at(s.obj, (f,) + VAL[k]) for f, k in TYPES[s.ty]['states']] for _ in range(n)]}
    s.steps = [dt * r.choice([1, 1, 3])] * r.randint(1, 2)
    return s

def long_record(r, m, n):
    """a walk of about n recorded steps"""
    p = sysprob('P1', [[(1.0, 1, []), (-1.0, 0, [0])]], [1.0], 0.0, 1.0)
    sol = adaptive(m, 1.0 / n, 1.0 / n, r.choice([5, 1]), 1.0, 1e-2, True, r.random() < .5)
    return scenario(r, m, prob=p, sched=sorted(r.random() for _ in range(r.choice([2, 9, 40]))) + [1.0], solver=sol, twin=True, rerun=False)

REFS = {1: ([(-2.0, 1, [0, 0])], 1.0), 2: ([(-1.0, 0, [0])], 1.0), 3: ([(1.0, 0, [0])], 1.0), 4: ([(3.0, 2, [0])], 1.0)}
def conv_steps(m, ref):
    """numbers of steps for which the asymptotic regime is reached and rounding does not show yet"""
    if m == 'ck': return [32] if ref == 4 else [8, 16][:1 if ref == 2 else 2]
    if m == 'rk4': return [16, 32]
    return [32, 64]
def convergence(r, m, ref, k, types=('P1', 'P2', 'P3', 'P6')):
    """a reference problem solved with step 1/k and 1/(2k)"""
    eq, y0 = REFS[ref]
    ty = r.choice(types)
    out = []
    rhs = pad(r, ty, [eq])
    ys = [y0] + [r.uniform(-1, 1) for _ in TYPES[ty]['states'][1:]]
    for fl, n in ((F_COARSE, k), (F_FINE, 2 * k)):
        h = 1.0 / n
        sol = fixed(m, h) if m not in ('bs', 'ck') else adaptive(m, h, h, r.choice([1, 5]), 1e6, 1e-9, False)
        sched = r.choice([[1.0], [.25, .5, .75, 1.0], [.5, 1.0]])
        out.append(scenario(r, m, prob=sysprob(ty, rhs, ys), sched=sched, flags=fl, ref=ref, solver=sol, twin=False, rerun=False))
    return out

# ---- running -----------------------------------------------------------------------------------------------------------
def run_walks(chk, binary, scens, name, tags=None, direct=(), evals=(), groups=(), module='trace'):
    """runs walks (`groups`: walks to be checked in sequence), sequences of direct steps and single evaluations, and checks their
    executions against the trace specification; clauses of this check's property become violations, as does a legal walk or step that
    panics or does not come back"""
    items = [('w', s) for s in scens] + [('d' if s.steps else 'w', s) for g in groups for s in g] + [('d', s) for s in direct] + [('e', s) for s in evals]
    mk = {'w': plan, 'd': plan_direct, 'e': plan_eval}
    plans = [mk[k](i, s) for i, (k, s) in enumerate(items)]
    t0 = time.time()
    res = run_scenarios(binary, plans)
    chk.phase('code', t0)
    enc = {}
    for i, (k, s) in enumerate(items):
        try:
            if k == 'w':
                g = outcome(s, res[i])
                g = encode(i, s, g) if g is not None and not isinstance(g, str) else g
            else: g = (encode_direct if k == 'd' else encode_eval)(i, s, res[i])
        except (IndexError, KeyError, TypeError, ValueError) as e:
            raise ToolError('encoding scenario %d: %r' % (i, e))
        if g is None:
            chk.add('skipped_after_hangs', 1)
            continue
        if isinstance(g, str):
            chk.add('failed_runs', 1)
            chk.violation('a legal %s of %s (%s): %s' % ({'w': 'walk', 'd': 'step', 'e': 'evaluation'}[k], s.ty, s.obj['solver_type']['m'], g), {'scenario': plans[i]})
            continue
        enc[i] = (i,) + g if not isinstance(g[0][0], list) else [(i, x, g[1] if k2 == 0 else 0) for k2, x in enumerate(g[0])]
        chk.sample({'scenario': i, 'type': s.ty, 'solver': s.obj['solver_type'], 't_report': [unhx(x) for x in s.obj['t_report']][:8], 'events': g[1]})
    one = [e if isinstance(e, list) else [e] for e in (enc.pop(i) for i in range(len(scens)) if i in enc)]
    k = len(scens)
    for g in groups:
        l = [enc.pop(i) for i in range(k, k + len(g)) if i in enc]
        k += len(g)
        if len(l) == len(g): one.append(l)
    one += [[x] for x in enc.values()]
    return judge(chk, one, name, lambda sid: {'scenario': plans[sid]}, tags, module)

def judge(chk, groups, name, replay, tags=None, module='trace'):
    """groups of (sid, words, events); balanced over shards, checked, verdicts filtered by property"""
    tags = tags or {chk.pid}
    total = sum(n for g in groups for _, _, n in g)
    if not total: return []
    sh = [[[], 0] for _ in range(max(1, min(JOBS, round(total / 400))))]
    for g in sorted(groups, key=lambda g: (-sum(n for _, _, n in g), g[0][0])):
        k = min(range(len(sh)), key=lambda j: sh[j][1])
        for sid, w, n in g:
            if len(w) > MAXWORDS: raise ToolError('execution %d too long: %d words' % (sid, len(w)))
            sh[k][0].append((w, n))
            sh[k][1] += n
    t0 = time.time()
    bad, cov, nev = check_traces(name, [s[0] for s in sh if s[0]], module)
    chk.phase('specification', t0)
    chk.traces += sum(len(g) for g in groups)
    chk.add('trace_events', nev)
    chk.transitions += nev; chk.states += nev + len(sh)
    for k, v in cov.items(): chk.add('ev_' + k, v)
    for b in bad:
        if b['tag'] in tags: chk.violation('%s: %s (scenario %d)' % (b['tag'], b['what'], b['sid']), {**replay(b['sid']), 'clause': b})
    other = [b for b in bad if b['tag'] not in tags]
    if other: chk.notes.append('clauses of other properties failed: ' + ', '.join(sorted({b['tag'] + ' ' + b['what'] for b in other}))[:600])
    return bad
