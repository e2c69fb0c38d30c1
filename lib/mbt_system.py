"""Replays behaviours of the object machine (spec/system.qnt) in the library: values of the specification are small integers, each
mapped to a value of the field's own type; after every operation every object is compared with the specification, field by field."""
import random
from common import *
from model import flatten

def variant(n):
    """solver choices, adaptive ones with settings and a record that are all different from the defaults"""
    def ad(m, k):
        return {'m': m, 'sc': {'dt_max': hx(k + 3), 'max_iter': 7 + k, 'atol': hx(k / 8), 'rtol': hx(k / 4), 'save': k % 2 == 0, 'save_states': k % 3 == 0,
                               'state': {'dt': hx(k + .5), 'n_iter': k + 1, 'norm_err': [hx(k / 16)], 'norm_err_rel': None if k % 2 else [hx(.25)], 't_curr': hx(k), 'states': [hx(1), hx(k)]},
                               'history': {'dt': [hx(.5), hx(k)], 'n_iter': [1, 2], 'norm_err': [None, [hx(k)]], 'norm_err_rel': [[hx(1)], None], 't_curr': [hx(0), hx(.5)], 'states': [[], [hx(k)]]}}}
    return [ad('ck', 2), {'m': 'euler', 'dt': hx(.5)}, ad('bs', 1), {'m': 'heun', 'dt': hx(.25)}, {'m': 'midpoint', 'dt': hx(2)}, ad('ck', 3), {'m': 'ralston', 'dt': hx(4)},
            {'m': 'rk4', 'dt': hx(.125)}, ad('bs', 4)][n % 9]

STRANGE = {99999: float('inf'), -99999: float('-inf'), 77777: float('nan')}
def num(n, u=1): return hx(STRANGE.get(n, n * u))
def units(k, tr):
    """the unit a number of the specification stands for, by leaf: states in one, time in another, derivatives in their ratio; every
    operation stays exact in them"""
    ty = tr[0]['ty']
    r = random.Random('%d/%d' % (SEED, k))
    if r.random() < .4 or any(st['op']['what'] == 'trip' and st['op']['leaf'] == 'json' for st in tr): us = ut = 1
    else: us, ut = r.choice([1, 2.0 ** -60, 2.0 ** -20, 2.0 ** 40, 2.0 ** -500]), r.choice([1, 2.0 ** -60, 2.0 ** -34, 2.0 ** 30])
    U = {p['v']: us for p in ty['pots']}
    U.update({p['d']: us / ut for p in ty['pots']})
    if ty['clock']: U[ty['clock']] = ut
    return U, {'states': us, 'set_states': us, 'step_states': us, 'derivs': us / ut, 'set_derivs': us / ut, 'step_derivs': us / ut, 'step_time': ut, 'step_states_by_dt': ut, 'get_state': ut}
def plain(v):
    """the form of a dump with one NaN"""
    if isinstance(v, list): return [plain(x) for x in v]
    return hx(float('nan')) if isinstance(v, str) and re.fullmatch(r'x[0-9a-f]{16}', v) and unhx(v) != unhx(v) else v
def enc(leaf, template, n, U={}):
    last = leaf.split('.')[-1]
    if last == 'solver_type': return variant(n)
    if last in ('old_history', 'states', 't_report_old'): return [hx(n + j) for j in range(n % 4)]
    if last == 't_report': return [hx(n), hx(n + 1)] + ([hx(n + 8)] if n % 2 else [])
    if last == 'rhs': return {'eqs': [[{'c': hx(n), 'tp': n % 3, 'ys': [0] * (n % 4)}]] * (n % 3)}
    if last == 'forced': return [] if n == 0 else [{'j': 0, 'poly': [hx(n), hx(1)]}]
    if last == 'opts': return None if n == 0 else [[n, -n]]
    if last == 'limits': return None if n == 0 else [[hx(n), hx(-n)]]
    if isinstance(template, bool): return n % 2 == 1
    if isinstance(template, int): return n
    if isinstance(template, str) and re.fullmatch(r'x[0-9a-f]{16}', template): return num(n, U.get(leaf, 1))
    if isinstance(template, str): return 's%d "\u00e9"\n' % n if n else ''
    raise ToolError('no encoding for %s = %r' % (leaf, template))

def at(d, leaf):
    for p in leaf.split('.'): d = d[p]
    return d
def nest(pairs):
    out = {}
    for leaf, v in pairs:
        d = out
        ps = leaf.split('.')
        for p in ps[:-1]: d = d.setdefault(p, {})
        d[ps[-1]] = v
    return out
def hist(d, own):
    for p in own.split('.') if own else []: d = d[p]
    return d['history']

SCALAR = {'states': 'state', 'derivs': 'deriv', 'storages': 'storage', 'set_states': 'set_state', 'step_states': 'step_state', 'set_derivs': 'set_deriv',
          'step_derivs': 'step_deriv', 'step_states_by_dt': 'step_state_by_dt'}
READS = ('states', 'derivs', 'storages', 'get_state')

def shape(template, leaves, hists):
    """fields of a dump that are neither leaves nor histories of the specification, and the other way round"""
    paths = set()
    def go(d, pre):
        for k, v in d.items():
            p = pre + k
            if k == 'history': paths.update(p + '.' + c for c in v)
            elif isinstance(v, dict) and k not in ('rhs', 'solver_type'): go(v, p + '.')
            else: paths.add(p)
    go(template, '')
    want = set(leaves)
    for h in hists:
        for c in h['cols']: want.add((h['own'] + '.' if h['own'] else '') + 'history.' + c.split('.')[-1])
    return paths ^ want

def scenario(k, tr, templates):
    ty = tr[0]['ty']
    name, T = ty['name'], templates[ty['name']]
    scalar = ty['clock'] == ''
    v0 = tr[0]['slots']['a']['vals']
    U, W = units(k, tr)
    ops = [{'op': 'default', 's': 'a', 'ty': name}, {'op': 'patch', 's': 'a', 'v': nest((l, enc(l, at(T, l), v0[l], U)) for l in ty['leaves'])}, {'op': 'dump', 's': 'a'}]
    marks = [(None, {'a': 2})]
    for st in tr[1:]:
        o = st['op']
        w, s, to = o['what'], o['on'], o['to']
        if w == 'patch': op = {'op': 'patch', 's': s, 'v': nest([(o['leaf'], enc(o['leaf'], at(T, o['leaf']), o['arg'][0], U))])}
        elif w in ('bare', 'clone'): op = {'op': w, 's': s, 'to': to}
        elif w == 'trip': op = {'op': 'trip', 's': s, 'to': to, 'fmt': o['leaf'], 'ty': name}
        elif w == 'eq': op = {'op': 'eq', 's': s, 'to': to}
        elif w == 'drop': op = {'op': 'drop', 's': s}
        else:
            op = {'op': 'call', 's': s, 'm': SCALAR.get(w, w) if scalar else w}
            a = [num(x, W.get(w, 1)) for x in o['arg']]
            if w in ('step_states_by_dt', 'step_time') or scalar and a: op['a'] = a[0]
            elif a: op['a'] = a
        ops.append(op)
        at_op = len(ops) - 1
        d = {}
        for x in sorted(st['slots']):
            ops.append({'op': 'dump', 's': x})
            d[x] = len(ops) - 1
        marks.append((at_op, d))
    return {'id': k, 'ops': ops}, marks, U, W

def differences(ty, T, obj, dump, U):
    """(leaf or history, text) where the object is not what the specification has"""
    out = []
    for l in ty['leaves']:
        got, want = plain(at(dump, l)), enc(l, at(T, l), obj['vals'][l], U)
        if l == 'solver_type':
            d = {'m': want['m'], **want}
            if got != d: out.append((l, '%s is %s, specification has %s' % (l, json.dumps(got), json.dumps(d))))
        elif got != want: out.append((l, '%s is %s, specification has %s' % (l, json.dumps(got), json.dumps(want))))
    for h in ty['hists']:
        got = hist(dump, h['own'])
        rows = obj['rows'][h['own']]
        for j, c in enumerate(h['cols']):
            want = [enc(c, at(T, c), r[j], U) for r in rows]
            if plain(got[c.split('.')[-1]]) != want:
                out.append(('history of ' + (h['own'] or 'self'), 'history of %s, %s: %s, specification has %s' % (h['own'] or 'the object', c, json.dumps(got[c.split('.')[-1]])[:300], json.dumps(want)[:300])))
    return out

VECTOR = set(SCALAR) | {'reset_derivs', 'step_time', 'get_state'}
def compare(tr, marks, U, W, templates, res):
    ty = tr[0]['ty']
    T = templates[ty['name']]
    if res.get('skipped'): return []
    if res.get('hang'): return [('C15', 'an operation does not come back')]
    o = res['out']
    reservoir = {p['v'] for p in ty['pots'] if p['res']} | {p['d'] for p in ty['pots'] if p['res']}
    for st, (at_op, dumps) in zip(tr, marks):
        w, s, to = st['op']['what'], st['op']['on'], st['op']['to']
        ctx = '%s %s%s: ' % (ty['name'], w, ' ' + json.dumps(st['op']['arg']) if st['op']['arg'] else '')
        tag = {'C12'} if w in ('bare', 'clone') else {'C19'} if w == 'trip' else {'C12', 'C19'} if w == 'eq' else {'C13'} if w == 'save_state' else {'C15'} if w in VECTOR else {'harness'}
        out = []
        if at_op is not None:
            r = o[at_op]
            if 'panic' in r or 'err' in r: return [(p, ctx + str(r)) for p in tag]
            got = r['ok']
            if w in ('states', 'derivs', 'storages'):
                want, got = [num(x, W.get(w, 1)) for x in st['result']], plain(got)
                if ty['clock'] == '': got = [got]
                if got != want:
                    extra = {'C18'} if w == 'storages' and reservoir else set()
                    out += [(p, ctx + 'returned %r, specification has %r' % (got, want)) for p in tag | extra]
            elif w == 'get_state':
                if got != {'i': st['result'][0], 'time': num(st['result'][1], W[w])}: out += [(p, ctx + 'returned %r, specification has %r' % (got, st['result'])) for p in tag]
            elif w in ('trip', 'eq'):
                if got != (st['result'] == [1]): out += [(p, ctx + 'returned %r, specification has %r' % (got, st['result'])) for p in tag]
        for x in sorted(dumps):
            if dumps[x] >= len(o): return out
            for where, what in differences(ty, T, st['slots'][x], o[dumps[x]]['ok'], U):
                t = set(tag)
                if x not in (s, to): t = {'C12'}
                elif where.startswith('history') and w not in ('bare', 'clone', 'trip'): t |= {'C13'}
                elif where in reservoir and w in VECTOR: t |= {'C18'}
                out += [(p, ctx + what) for p in t]
        if out: return out
    return []

def check(chk, binary, n, steps, tags, main='systemRuns', salt=0):
    trs = behaviours(chk, main, 'system.qnt', n, steps, SEED + salt)
    names = sorted({t[0]['ty']['name'] for t in trs})
    t0 = time.time()
    got = run_scenarios(binary, [{'id': n, 'ops': [{'op': 'default', 's': 'a', 'ty': n}, {'op': 'dump', 's': 'a'}]} for n in names])
    templates = {n: got[n]['out'][1]['ok'] for n in names}
    for tr in trs:
        ty = tr[0]['ty']
        d = shape(templates[ty['name']], ty['leaves'], ty['hists'])
        if d: raise ToolError('specification and harness disagree about the fields of %s: %s' % (ty['name'], sorted(d)))
    scs = [scenario(k, t, templates) for k, t in enumerate(trs)]
    res = run_scenarios(binary, [s[0] for s in scs])
    chk.phase('code', t0)
    chk.traces += len(trs)
    for (sc, marks, U, W), tr in zip(scs, trs):
        chk.add('replayed_operations', len(marks) - 1)
        for st in tr[1:]: chk.add('op_' + st['op']['what'], 1)
        for p, what in compare(tr, marks, U, W, templates, res[sc['id']]):
            if p == 'harness': raise ToolError('harness: ' + what)
            if p in tags: chk.violation(what, {'scenario': sc})
    chk.add('types', len(names))
    chk.sample({'behaviour_of': main, 'type': trs[0][0]['ty']['name'], 'operations': [s['op']['what'] for s in trs[0]]})
