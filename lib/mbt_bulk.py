"""Replays behaviours of spec/bulk.qnt (histories with tens of thousands of rows, as runs of equal rows) on the library's containers
and on objects whose state is saved again and again."""
from common import *
import mbt_history, mbt_system

def joined(runs):
    """equal neighbours are one run (two values of the specification may be encoded alike)"""
    out = []
    for v, n in runs:
        if out and out[-1][0] == v: out[-1][1] += n
        else: out.append([v, n])
    return out

def records(chk, binary, n, steps, trips=False):
    """a container: push, pop, clear, len; or push and trips through the formats"""
    main = 'bulkTrips' if trips else 'bulkRecords'
    trs = behaviours(chk, main, 'bulk.qnt', n, steps, SEED, step='trips' if trips else 'step')
    t0 = time.time()
    recs = ['MassStateHistoryVec', 'ThermalMassStateHistoryVec', 'SystemStateHistoryVec', 'LinkStateHistoryVec', 'ProbeStateHistoryVec', 'ConductanceStateHistoryVec', 'SolverStateHistoryVec']
    names = {x[:-10]: x for x in recs}
    REC = sorted(names)
    got = run_scenarios(binary, [{'id': x, 'ops': [{'op': 'default', 's': 'a', 'ty': x}, {'op': 'dump', 's': 'a'}]} for x in REC])
    T = {x: got[x]['out'][1]['ok'] for x in REC}
    scs, exps = [], []
    for k, tr in enumerate(trs):
        name = REC[k % len(REC)]
        rec = lambda v: {f: mbt_history.enc(t, (v + j) % 10) for j, (f, t) in enumerate(sorted(T[name].items()))}
        ops, exp = [{'op': 'default', 's': 'a', 'ty': names[name]}], []
        for st in tr[1:]:
            o, r = st['op'], st['result']
            if o['what'] == 'push': op, want = {'op': 'repeat', 'n': o['n'], 'ops': [{'op': 'call', 's': 'a', 'm': 'push', 'a': rec(o['value'])}]}, None
            elif o['what'] == 'pop':
                # what the last removal that found a row returned
                op, want = {'op': 'repeat', 'n': r['found'], 'ops': [{'op': 'call', 's': 'a', 'm': 'pop'}]}, [rec(r['value'])] if r['found'] else None
                if o['n'] > r['found']:
                    ops.append(op); exp.append((len(ops) - 1, '%s pop %d' % (name, r['found']), want))
                    op, want = {'op': 'repeat', 'n': o['n'] - r['found'], 'ops': [{'op': 'call', 's': 'a', 'm': 'pop'}]}, None
            elif o['what'] == 'trip':
                # YAML of a long history takes long
                f = ['bin', 'json', 'yaml'][o['value']]
                if f != 'bin' and r['found'] > 12000: f = 'bin'
                op, want = {'op': 'trip', 's': 'a', 'to': 'a', 'fmt': f, 'ty': names[name]}, True
                chk.add('trips_' + f, 1)
                chk.cov['longest_trip_' + f] = max(chk.cov.get('longest_trip_' + f, 0), r['found'])
            elif o['what'] == 'len': op, want = {'op': 'call', 's': 'a', 'm': 'len'}, r['found']
            else: op, want = {'op': 'call', 's': 'a', 'm': o['what']}, None
            ops.append(op); exp.append((len(ops) - 1, '%s %s %d' % (name, o['what'], o['n']), want))
            ops.append({'op': 'call', 's': 'a', 'm': 'is_empty'}); exp.append((len(ops) - 1, name + ' is_empty', not st['runs']))
            ops.append({'op': 'runs', 's': 'a', 'ty': names[name]})
            exp.append((len(ops) - 1, '%s after %s %d, runs of equal rows' % (name, o['what'], o['n']),
                        {f: joined([mbt_history.enc(t, (q['value'] + j) % 10), q['count']] for q in st['runs']) for j, (f, t) in enumerate(sorted(T[name].items()))}))
        scs.append({'id': k, 'ops': ops}); exps.append(exp)
    finish(chk, binary, scs, exps, trs, main, t0)

def finish(chk, binary, scs, exps, trs, main, t0):
    res = run_scenarios(binary, scs)
    chk.phase('code', t0)
    chk.traces += len(scs)
    chk.cov['largest_history'] = max([chk.cov.get('largest_history', 0)] + [sum(q['count'] for q in st['runs']) for tr in trs for st in tr])
    for sc, exp in zip(scs, exps):
        what = first(exp, res[sc['id']])
        chk.add('replayed_operations', len(exp))
        if what: chk.violation(what, {'scenario': sc})
    chk.sample({'behaviour_of': main, 'operations': ['%s %d' % (s['op']['what'], s['op']['n']) for s in trs[0]]})

def first(exp, res):
    if res.get('skipped'): return None
    if res.get('hang'): return 'an operation does not come back'
    o = res['out']
    for n, what, want in exp:
        if n >= len(o): return what + ': stopped'
        if 'ok' not in o[n]: return what + ': ' + json.dumps(o[n])[:300]
        if o[n]['ok'] != want: return '%s: %s, specification has %s' % (what, json.dumps(o[n]['ok'])[:400], json.dumps(want)[:400])
    return None

def saves(chk, binary, n, steps):
    """objects whose state is saved many times, with different values"""
    from model import TYPES, VAL
    trs = behaviours(chk, 'bulkSaves', 'bulk.qnt', n, steps, SEED + 1)
    shapes = {t[0]['ty']['name']: t[0]['ty'] for m in ('systemRuns', 'componentRuns') for t in behaviours(chk, m, 'system.qnt', 40, 3, 77)}
    t0 = time.time()
    names = sorted(shapes)
    got = run_scenarios(binary, [{'id': x, 'ops': [{'op': 'default', 's': 'a', 'ty': x}, {'op': 'dump', 's': 'a'}]} for x in names])
    T = {x: got[x]['out'][1]['ok'] for x in names}
    scs, exps = [], []
    for k, tr in enumerate(trs):
        name = names[k % len(names)]
        ty = shapes[name]
        # every recorded plain value of the object follows the value of the behaviour
        cols = sorted({c for h in ty['hists'] for c in h['cols']})
        val = lambda c, v: mbt_system.enc(c, mbt_system.at(T[name], c), (v + cols.index(c)) % 10)
        ops, exp = [{'op': 'default', 's': 'a', 'ty': name}], []
        for st in tr[1:]:
            o = st['op']
            if o['what'] == 'push':
                ops.append({'op': 'patch', 's': 'a', 'v': mbt_system.nest((c, val(c, o['value'])) for c in cols)})
                ops.append({'op': 'repeat', 'n': o['n'], 'ops': [{'op': 'call', 's': 'a', 'm': 'save_state'}]})
                exp.append((len(ops) - 1, '%s save_state, %d times' % (name, o['n']), None))
            ops.append({'op': 'runs', 's': 'a', 'ty': name})
            exp.append((len(ops) - 1, name, [{'own': h['own'], 'cols': {c.split('.')[-1]: joined([val(c, q['value']), q['count']] for q in (st['runs'] if h['tracked'] else [])) for c in h['cols']}} for h in ty['hists']]))
        scs.append({'id': k, 'ops': ops}); exps.append((exp, ty))
    res = run_scenarios(binary, scs)
    chk.phase('code', t0)
    chk.traces += len(scs)
    chk.cov['longest_saved_history'] = max([chk.cov.get('longest_saved_history', 0)] + [sum(q['count'] for q in st['runs']) for tr in trs for st in tr])
    for sc, (exp, ty) in zip(scs, exps):
        r = res[sc['id']]
        chk.add('replayed_operations', len(exp))
        if not r.get('out'):
            what = None if r.get('skipped') else 'saving does not come back'
        else:
            out = []
            for n, what, want in exp:
                if n < len(r['out']) and isinstance(want, list) and 'ok' in r['out'][n]:
                    d = r['out'][n]['ok']
                    r['out'][n]['ok'] = [{'own': h['own'], 'cols': mbt_system.hist(d, h['own'])} for h in ty['hists']]
            what = first(exp, r)
        if what: chk.violation(what, {'scenario': sc})
    chk.sample({'behaviour_of': 'bulkSaves', 'type': names[0], 'saves': [s['op']['n'] for s in trs[0]]})
