"""Runs inside the Python that loads the library's module: one operation per line on stdin, what was observed on stdout."""
import sys, json, struct, copy, os
sys.path.insert(0, sys.argv[1])
os.chdir(sys.argv[2])
import dess_pyo3 as D
S = {}
def hx(x): return 'x%016x' % struct.unpack('<Q', struct.pack('<d', x))[0]
def un(v):
    if isinstance(v, str) and len(v) == 17 and v[0] == 'x': return struct.unpack('<d', struct.pack('<Q', int(v[1:], 16)))[0]
    if isinstance(v, list): return [un(x) for x in v]
    return v
def look(v):
    if v is None or isinstance(v, (bool, int, str)): return v
    if isinstance(v, float): return hx(v)
    if isinstance(v, (list, tuple)): return [look(x) for x in v]
    out = {'class': type(v).__name__}
    for n in dir(v):
        if n.startswith('_'): continue
        x = getattr(v, n)
        if callable(x): continue
        out[n] = look(x)
    for n in ('len', 'dt_mean'):
        if hasattr(v, n): out[n + '()'] = look(getattr(v, n)())
    return out
class Bad: pass
def run(o):
    w, on, to = o['what'], o.get('on'), o.get('to')
    C = getattr(D, o['cls']) if o.get('cls') else None
    if w == 'call':
        f = getattr(C, o['f']) if o.get('f') else C
        args = [S[x['slot']] if isinstance(x, dict) else un(x) for x in o.get('args', [])]
        kw = {k: S[x['slot']] if isinstance(x, dict) else un(x) for k, x in o.get('kw', {}).items()}
        r = f(*args, **kw)
        if type(r) is not C: return {'bad': 'gave a %s' % type(r).__name__}
        S[to] = r
    elif w == 'parse':
        r = getattr(C, 'from_' + o['fmt'])(bytes(o['v']) if o['fmt'] == 'bincode' else o['v'])
        if type(r) is not C: return {'bad': 'gave a %s' % type(r).__name__}
        if to: S[to] = r
    elif w == 'read':
        r = C.from_file(o['f'])
        if type(r) is not C: return {'bad': 'gave a %s' % type(r).__name__}
        if to: S[to] = r
    elif w == 'get': S[to] = getattr(S[on], o['f'])
    elif w == 'clone': S[to] = S[on].clone()
    elif w == 'copy': S[to] = copy.copy(S[on])
    elif w == 'deepcopy': S[to] = copy.deepcopy(S[on])
    elif w in ('json', 'yaml', 'bincode'): S[to] = getattr(type(S[on]), 'from_' + w)(getattr(S[on], 'to_' + w)())
    elif w == 'file':
        S[on].to_file(o['f'])
        S[to] = type(S[on]).from_file(o['f'])
    elif w == 'to_file': S[on].to_file(o['f'])
    elif w == 'walk':
        if S[on].walk() is not None: return {'bad': 'walk returned something'}
    elif w == 'assign': setattr(S[on], o['f'], getattr(S[on], o['f']))
    elif w == 'look': return {'ok': {k: look(v) for k, v in S.items()}}
    elif w == 'text': return {'ok': {'json': S[on].to_json(), 'yaml': S[on].to_yaml(), 'bin': list(S[on].to_bincode())}}
    elif w == 'twins': return {'ok': look(S[on]) == look(S[to]) and S[on].to_bincode() == S[to].to_bincode()}
    elif w == 'bulk':
        # a history of many rows, given as runs of equal values: loaded, passed on in some way, and looked at as runs again
        cols = {f: [x for v, n in rs for x in [v] * n] for f, rs in o['cols'].items()}
        x = C.from_yaml(json.dumps(cols)) if o['way'] == 'yaml' else C.from_json(json.dumps(cols))
        if o['way'] in ('json', 'yaml', 'bincode'): x = getattr(C, 'from_' + o['way'])(getattr(x, 'to_' + o['way'])())
        elif o['way'] == 'file':
            x.to_file(o['f'])
            x = C.from_file(o['f'])
            os.remove(o['f'])
        elif o['way'] == 'clone': x = x.clone()
        elif o['way'] == 'deepcopy': x = copy.deepcopy(x)
        out = {}
        for f in cols:
            rs = out[f] = []
            for v in look(getattr(x, f)):
                if rs and rs[-1][0] == v: rs[-1][1] += 1
                else: rs.append([v, 1])
        return {'ok': {'len': x.len(), 'cols': out}}
    elif w == 'reset': S.clear()
    elif w == 'names': return {'ok': sorted(n for n in dir(D) if isinstance(getattr(D, n), type))}
    else: raise SystemExit('driver: ' + w)
    return {'ok': None}
for line in sys.stdin:
    try: r = run(json.loads(line))
    except Exception as e: r = {'exc': type(e).__name__, 'msg': str(e)[:200]}
    except BaseException as e:
        if isinstance(e, (SystemExit, KeyboardInterrupt)): raise
        r = {'panic': type(e).__name__, 'msg': str(e)[:200]}
    sys.stdout.write(json.dumps(r) + '\n')
    sys.stdout.flush()
