"""Replays behaviours of the history container (spec/history.qnt) on the containers generated by the library."""
from common import *

REALS = [0.0, 1.5, -2.25, 3.0, 1024.0, -0.125, 1e300, 2.0 ** -40, -7.0, 65536.5]
def enc(template, n):
    if isinstance(template, bool): return n % 2 == 1
    if isinstance(template, int): return n
    if template is None: return None if n == 0 else [hx(REALS[n])]
    if isinstance(template, list): return [hx(REALS[(n + j) % 10]) for j in range(n % 4)]
    if isinstance(template, dict): return {k: enc(v, (n + j) % 10) for j, (k, v) in enumerate(sorted(template.items()))}
    if re.fullmatch(r'x[0-9a-f]{16}', template): return hx(REALS[n])
    return ['', 'a', 'b "q"', '\u00e9\n', '0', ' ', 'null', '~', '1e3', 'a: b'][n]

def scenario(k, tr, T):
    rec = tr[0]['rec']
    name = rec['name'] + 'HistoryVec'
    record = lambda v: {f: enc(T[f], x) for f, x in zip(rec['fields'], v)}
    ops = [{'op': 'default', 's': s, 'ty': name} for s in sorted(tr[0]['list'])]
    exp = []
    for st in tr[1:]:
        o, res = st['op'], st['result']
        w = o['what']
        if w in ('clone',): op, want = {'op': 'clone', 's': o['on'], 'to': o['to']}, None
        elif w in ('json', 'yaml', 'bin'): op, want = {'op': 'trip', 's': o['on'], 'to': o['to'], 'fmt': w, 'ty': name}, True
        elif w == 'eq': op, want = {'op': 'eq', 's': o['on'], 'to': o['to']}, res == [[1]]
        elif w == 'push': op, want = {'op': 'call', 's': o['on'], 'm': 'push', 'a': record(o['arg'])}, None
        elif w == 'pop': op, want = {'op': 'call', 's': o['on'], 'm': 'pop'}, [record(res[0])] if res else None
        elif w == 'len': op, want = {'op': 'call', 's': o['on'], 'm': 'len'}, res[0][0]
        elif w == 'is_empty': op, want = {'op': 'call', 's': o['on'], 'm': 'is_empty'}, res == [[1]]
        else: op, want = {'op': 'call', 's': o['on'], 'm': w}, None
        ops.append(op)
        n = len(ops) - 1
        cols = {}
        for s in sorted(st['list']):
            ops.append({'op': 'dump', 's': s})
            cols[s] = {f: [enc(T[f], r[j]) for r in st['list'][s]] for j, f in enumerate(rec['fields'])}
        exp.append((n, '%s %s' % (name, w), want, cols))
    return {'id': k, 'ops': ops}, exp

def compare(exp, res, trips=False):
    w, out = first(exp, res)
    return [] if out is None or trips and w not in ('json', 'yaml', 'bin', 'eq', '') else [out]
def first(exp, res):
    """the operation of the first difference, and the difference"""
    if res.get('skipped'): return '', None
    if res.get('hang'): return '', 'an operation does not come back'
    o = res['out']
    for n, what, want, cols in exp:
        w = what.split()[-1]
        if n >= len(o): return w, '%s: stopped' % what
        if 'ok' not in o[n]: return w, '%s: %s' % (what, json.dumps(o[n]))
        if o[n]['ok'] != want: return w, '%s returned %s, specification has %s' % (what, json.dumps(o[n]['ok']), json.dumps(want))
        for j, s in enumerate(sorted(cols)):
            got = o[n + 1 + j]['ok']
            if got != cols[s]: return w, 'after %s the columns are %s, specification has %s' % (what, json.dumps(got)[:600], json.dumps(cols[s])[:600])
    return '', None

def check(chk, binary, n, steps, trips=False):
    """trips: only what serialization and loading do counts"""
    trs = behaviours(chk, 'historyRuns', 'history.qnt', n, steps, SEED)
    t0 = time.time()
    names = sorted({t[0]['rec']['name'] for t in trs})
    got = run_scenarios(binary, [{'id': x, 'ops': [{'op': 'default', 's': 'a', 'ty': x}, {'op': 'dump', 's': 'a'}]} for x in names])
    T = {x: got[x]['out'][1]['ok'] for x in names}
    for t in trs:
        r = t[0]['rec']
        if set(r['fields']) != set(T[r['name']]): raise ToolError('specification and harness disagree about ' + r['name'])
    scs = [scenario(k, t, T[t[0]['rec']['name']]) for k, t in enumerate(trs)]
    res = run_scenarios(binary, [s[0] for s in scs])
    chk.phase('code', t0)
    chk.traces += len(scs)
    chk.add('record_types', len(names))
    for (sc, exp), t in zip(scs, trs):
        chk.add('replayed_operations', len(exp))
        for st in t[1:]: chk.add('op_' + st['op']['what'], 1)
        for what in compare(exp, res[sc['id']], trips): chk.violation(what, {'scenario': sc})
    chk.sample({'behaviour_of': 'historyRuns', 'record': trs[0][0]['rec']['name'], 'operations': [s['op']['what'] for s in trs[0]]})
