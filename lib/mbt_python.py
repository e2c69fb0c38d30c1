"""Replays behaviours of spec/pyapi.qnt in Python on the library's module, and in Rust on the library, and compares."""
import random, threading
from common import *
from walks import *
from mbt_store import lossy, in_text, HEX

METHOD = ['euler', 'heun', 'midpoint', 'ralston', 'rk4', 'bs', 'ck']
TABLE = {
    'c': [1.0, 2.0, .5, 3.25, 10.0], 'temp': [0.0, 10.0, -5.5, 37.25, 100.0], 'h': [5.0, 1.0, .25, 2.0, 0.0], 'dtemp': [0.0, 1.0, -2.5, 4.0, 8.5], 'q': [0.0, 1.0, -2.5, 4.0, 8.5],
    't_report': [[1.0], [.25, .5, 1.0], [0.0, .5], [.1, .2, .30000000000000004, .7, 1.5], [2.0, 2.0, 2.5]], 'dt': [.1, .05, .25, 1.0, .01],
    'dt_max': [10.0, .1, .05, 1.0, .02], 'max_iter': [5, 1, 2, 20, 255], 'rtol': [1e-5, 1e-3, 1e-7, .1, 1e-4], 'atol': [1e-9, 1e-6, 1e-12, 1e-3, 1e-8],
    'i': [0, 1, 2, 3, 4], 'time': [0.0, .5, 1.0, 2.0, -1.0], 'n_iter': [0, 1, 2, 5, 255], 't_curr': [0.0, .5, 1.0, 2.0, -1.0],
    'norm_err': [None, [1e-3], [0.0], [2.5], [1e-12]], 'norm_err_rel': [[1e-3], None, [0.0], [2.5], [1e-12]], 'states': [[], [1.0], [1.0, 2.0], [0.5, -0.25, 3.0], [7.0]],
    'save': [True, False, True, True, False], 'save_states': [False, True, True, False, True],
}
NOTHING = {'i': 0, 'n_iter': 0, 'max_iter': 0, 'norm_err': None, 'norm_err_rel': None, 'states': [], 't_report': [], 'save': False, 'save_states': False}
def enc(v):
    if isinstance(v, float): return hx(v)
    if isinstance(v, list): return [enc(x) for x in v]
    return v
def loaded(seed, path):
    """content of loaded objects: anything, as long as a walk of it is an ordinary one"""
    r = random.Random('%d/%s' % (seed, '/'.join(path)))
    rows = random.Random('%d/%s' % (seed, '/'.join(path[:-1]))).choice([0, 0, 1, 2, 5])
    n = path[-1]
    def one():
        if n in ('c',): return r.choice([.5, 1.0, 2.0, 7.75, r.uniform(.5, 10)])
        if n in ('temp',): return r.choice([0.0, 20.0, r.uniform(-100, 100)])
        if n == 'h': return r.choice([0.0, 1.0, r.uniform(0, 5)])
        if n in ('dtemp', 'q', 'time', 't_curr'): return r.choice([0.0, -0.0, 1.5, r.uniform(-9, 9), 1e300, 5e-324, -1.7976931348623157e308])
        if n == 't_report': return sorted(r.choice([.1, .25, .5, 1.0, 1.5, r.uniform(0, 2)]) for _ in range(r.randint(1, 5)))
        if n == 'dt': return r.choice([.1, .05, .3, 1.0, r.uniform(.01, 1)])
        if n == 'dt_max': return r.choice([10.0, .1, .5, r.uniform(.05, 1)])
        if n == 'max_iter': return r.choice([1, 2, 5, 60, 255])
        if n in ('rtol', 'atol'): return r.choice([1e-3, 1e-5, 1e-9, 10 ** r.uniform(-9, -1)])
        if n in ('i',): return r.choice([0, 1, 7, 2**40 + 1])
        if n == 'n_iter': return r.randint(0, 255)
        if n in ('norm_err', 'norm_err_rel'): return r.choice([None, [0.0], [r.random()], [1e308]])
        if n == 'states': return [r.uniform(-5, 5) for _ in range(r.randint(0, 4))]
        return r.random() < .5
    if 'history' in path or path[:1] == ['HIST']: return [enc(one()) for _ in range(rows)]
    return enc(one())
def value(cell, path, cls):
    """Rust form of the value a cell of the specification stands for, other than a result"""
    n, hist = path[-1], 'history' in path or cls.endswith('HistoryVec')
    if cell['n'] == -1: return [] if hist else enc(NOTHING.get(n, 0.0))
    if cell['src']: return loaded(cell['n'], (['HIST'] if hist and 'history' not in cell['src'] else []) + list(cell['src']))
    return enc(TABLE[n][cell['n']])
def nest(flat, cls):
    """the harness form of an object from its leaves"""
    out = {}
    for path, v in flat.items():
        if path in (('m',), ('dt',)) and cls.startswith('System3') or path[0] == 'sc': continue
        d = out
        for x in path[:-1]: d = d.setdefault(x, {})
        d[path[-1]] = v
    if cls.startswith('System3'):
        m = flat[('m',)]
        if m < 5: out['solver_type'] = {'m': METHOD[m], 'dt': flat[('dt',)]}
        else:
            sc = {}
            for path, v in flat.items():
                if path[0] != 'sc': continue
                d = sc
                for x in path[1:-1]: d = d.setdefault(x, {})
                d[path[-1]] = v
            out['solver_type'] = {'m': METHOD[m], 'sc': sc}
    return out
def flatten(d, cls):
    out = {}
    def go(x, path):
        for k, v in x.items():
            if k == 'solver_type' and cls.startswith('System3'):
                out[('m',)] = METHOD.index(v['m'])
                if 'sc' in v: go(v['sc'], ('sc',))
                else: out[('dt',)] = v['dt']
            elif isinstance(v, dict): go(v, path + (k,))
            else: out[path + (k,)] = v
    go(d, ())
    return out
OPT = ('norm_err', 'norm_err_rel')
def seen(d, cls, parts):
    """what Python must show for an object given in harness form"""
    out = {'class': cls}
    hist = cls.endswith('HistoryVec')
    for k, v in d.items():
        if k == 'solver_type':
            out['solver_type'] = v
            out['solver_conf'] = seen(v['sc'], 'AdaptiveSolverConfig', parts) if 'sc' in v else None
        elif isinstance(v, dict): out[k] = seen(v, parts[cls][k], parts)
        elif k in OPT: out[k] = [x if x is None else x[0] for x in v] if hist else v if v is None else v[0]
        else: out[k] = v
    if hist: out['len()'] = len(list(d.values())[0])
    if cls == 'AdaptiveSolverConfig':
        h = d['history']['dt']
        tot = 0.0
        for x in h: tot += unhx(x)
        out['dt_mean()'] = hx(tot / len(h)) if h else None
    return out
def differ(want, got, path=''):
    if path.endswith('.solver_type') and isinstance(want, dict):
        if not isinstance(got, str): return '%s is %s' % (path, json.dumps(got))
        names = {'euler': 'EulerFixed', 'heun': 'HeunsMethod', 'midpoint': 'MidpointMethod', 'ralston': 'RalstonsMethod', 'rk4': 'RK4Fixed', 'bs': 'RK23BogackiShampine', 'ck': 'RK45CashKarp'}
        try: j = json.loads(got)
        except ValueError: return '%s is no JSON: %s' % (path, got[:200])
        if list(j) != [names[want['m']]]: return '%s is %s, should name %s' % (path, got[:100], names[want['m']])
        x = in_text(want, j, path)
        return x and '%s in %s' % (x, got[:300])
    if isinstance(want, dict):
        if not isinstance(got, dict): return '%s is %s, should be an object' % (path, json.dumps(got)[:100])
        for k in sorted(set(want) | set(got)):
            if k not in got: return '%s.%s cannot be read' % (path, k)
            if k not in want: continue                        # more may be shown than the specification knows
            x = differ(want[k], got[k], path + '.' + k)
            if x: return x
        return None
    if want != got or isinstance(want, bool) != isinstance(got, bool): return '%s is %s, should be %s' % (path, show(got), show(want))
    return None
def show(v):
    if isinstance(v, str) and HEX.match(v): return repr(unhx(v))
    return json.dumps(v)[:300]
def exact(v):
    """survives the lossy reading of JSON"""
    if isinstance(v, dict): return all(exact(x) for x in v.values())
    if isinstance(v, list): return all(exact(x) for x in v)
    return not (isinstance(v, str) and HEX.match(v)) or hx(lossy(unhx(v))) == v

class Py:
    def __init__(self, mod, cwd):
        self.p = subprocess.Popen(['/usr/bin/python3.12', '-I', os.path.join(VERIF, 'lib', 'pydriver.py'), mod, cwd], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, env=env(PYTHONDONTWRITEBYTECODE='1'))
        self.log = []
    def op(self, **o):
        self.log.append(o)
        try:
            self.p.stdin.write(json.dumps(o) + '\n')
            self.p.stdin.flush()
            l = self.p.stdout.readline()
        except BrokenPipeError: l = ''
        return json.loads(l) if l else {'died': True}
    def close(self):
        self.p.stdin.close()
        try: self.p.wait(5)
        except Exception: self.p.kill()
        self.p.stdout.close()

def build_module(d):
    """the Python module, from /repo's working tree"""
    tgt = os.path.join(BUILD, 'm')
    os.makedirs(tgt, exist_ok=True)
    p = subprocess.run(['cargo', 'build', '--offline', '--locked', '--quiet', '-p', 'dess-examples-pyo3', '--manifest-path', os.path.join(REPO, 'Cargo.toml')],
                       env=env(CARGO_TARGET_DIR=tgt), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    if p.returncode: raise Unbuildable('\n'.join(p.stderr.splitlines()[-40:]))
    os.makedirs(d, exist_ok=True)
    shutil.copy(os.path.join(tgt, 'debug', 'libdess_pyo3.so'), os.path.join(d, 'dess_pyo3.so'))

PARTS = None
def parts_of():
    """which class is where, from the specification's own table"""
    global PARTS
    if PARTS is None:
        s = open(os.path.join(SPEC, 'pyapi.qnt')).read()
        s = s[s.index('pure val PARTS'):]
        s = s[s.index('= Map('):s.index('pure val CONTAINERS')]
        PARTS = {c: dict(re.findall(r'\{ f: "(\w+)", cls: "(\w+)" \}', b)) for c, b in re.findall(r'"(\w+)" -> \[(.*?)\]', s, re.S)}
    return PARTS

class Replay:
    def __init__(self, binary, mod, d, k, tr):
        self.rs, self.py, self.d, self.k, self.tr = Live(binary), Py(mod, d), d, k, tr
        self.results, self.defaults, self.n, self.ops = [], {}, 0, 0
    def rust(self, **o):
        r = self.rs.op(**o)
        if 'ok' not in r: raise ToolError('harness: %s for %s' % (json.dumps(r)[:300], json.dumps(o)[:300]))
        return r['ok']
    def default(self, cls):
        if cls not in self.defaults:
            self.rust(op='default', s='z', ty=cls)
            self.defaults[cls] = flatten(self.rust(op='dump', s='z'), cls)
        return self.defaults[cls]
    def rust_bytes(self, o, v, fmt='bin'):
        self.rust(op='new', s='z', ty=o['cls'], v=v)
        return self.rust(op='ser', s='z', fmt=fmt)
    def refuse(self, w, cls, on):
        C = on['cls']
        if w == 'missing argument': return dict(what='call', cls=cls, to='never')
        if w == 'argument too many': return dict(what='call', cls=cls, to='never', args=[1] * 9)
        if w == 'unknown keyword': return dict(what='call', cls=cls, to='never', kw={'bogus': 1})
        if w == 'wrong type': return dict(what='call', cls=cls, to='never', args=['x'] * {'ThermalMass': 2, 'ThermalReservoir': 1, 'Conductance': 1, 'AdaptiveSolverConfig': 7}.get(cls, 7))
        if w == 'malformed json': return dict(what='parse', cls=C, fmt='json', v='{"')
        if w == 'malformed yaml': return dict(what='parse', cls=C, fmt='yaml', v='a: [')
        if w == 'malformed bincode': return dict(what='parse', cls=C, fmt='bincode', v=[1])
        if w == 'missing file': return dict(what='read', cls=C, f='nothing.yaml')
        if w == 'assignment': return dict(what='assign', f=sorted(p[0] for p in map(json.loads, on['at']) if p[0] not in ('m', 'sc', 'dt') or not C.startswith('System3'))[0])
        return dict(what='to_file', f='x.txt')
    def run(self):
        """None, or what is wrong"""
        P = parts_of()
        r = random.Random('%d/py/%d' % (SEED, self.k))
        forms = {}
        for st in self.tr[1:]:
            o, objs = st['op'], st['objs']
            w, on, to, cls = o['what'], o['on'], o['dst'], o['cls']
            self.ops += 1
            if w == 'walk':
                # the library's own walk of the same object
                start = st['runs'][-1]
                v = self.form(start, forms)
                self.rust(op='new', s='w', ty=cls, v=v)
                self.rust(op='call', s='w', m='walk')
                self.results.append(flatten(self.rust(op='dump', s='w'), cls))
            now = {s: self.form(x, forms) for s, x in objs.items()}
            if w == 'make':
                vals = [value(c, tuple(p), cls) for c, p in zip(o['args'], o['names'])]
                names = [{'state/dt': 'dt_init', 'state/temp': 'temp0'}.get('/'.join(p), p[-1]) for p in o['names']]
                style = r.random()
                if cls == 'AdaptiveSolverConfig':
                    left = [c['n'] == -1 for c in o['args']]
                    if style < .5 or left[5]:                 # by name, leaving out what is left to its default
                        kw = {n: v for n, v, l in zip(names, vals, left) if not l}
                        items = list(kw.items()); r.shuffle(items)
                        call = dict(what='call', cls=cls, to=to, kw=dict(items))
                    else: call = dict(what='call', cls=cls, to=to, args=vals[:6 if left[6] else 7])
                elif style < .5: call = dict(what='call', cls=cls, to=to, args=vals)
                else: call = dict(what='call', cls=cls, to=to, args=vals[:1], kw=dict(zip(names[1:], vals[1:]))) if style < .75 else dict(what='call', cls=cls, to=to, kw=dict(reversed(list(zip(names, vals)))))
            elif w in ('assemble', 'classmethod'):
                m = o['args'][0]['n']
                st_v = now[to]['solver_type']
                f = None
                first = None
                if w == 'assemble' and exact(st_v):
                    self.rust(op='new', s='z', ty='SolverTypes', v=st_v)
                    first = ('solver_type', self.rust(op='ser', s='z', fmt='json'))
                else:
                    f = {5: 'new_rk23_bogacki_shampine', 6: 'new_rk45_cash_karp'}[m]
                    first = ('sol', {'slot': on})
                rest = [first] + list(zip(['m1', 'm2', 'h12', 'm3', 'h23'], [{'slot': x} for x in o['parts']])) + [('t_report', enc(TABLE['t_report'][o['args'][2]['n']]))]
                cut = r.choice([0, 7, 7, r.randint(0, 7)])
                tail = rest[cut:]; r.shuffle(tail)
                call = dict(what='call', cls=cls, f=f, to=to, args=[x for _, x in rest[:cut]], kw=dict(tail))
            elif w == 'load':
                fmt = o['parts'][0]
                if fmt == 'json' and not exact(now[to]): fmt = 'bincode'
                text = self.rust_bytes(objs[to], now[to], {'json': 'json', 'yaml': 'yaml', 'bincode': 'bin', 'file': 'yaml'}[fmt])
                if fmt == 'file':
                    self.n += 1
                    name = os.path.join(self.d, 'in%d.yaml' % self.n)
                    with open(name, 'w') as fh: fh.write(text)
                    call = dict(what='read', cls=cls, to=to, f=name)
                else: call = dict(what='parse', cls=cls, to=to, fmt=fmt, v=text)
            elif w == 'default': call = dict(what='call', cls=cls, f='default', to=to)
            elif w == 'get': call = dict(what='get', on=on, to=to, f=o['names'][0][0])
            elif w == 'walk': call = dict(what='walk', on=on)
            elif w == 'refused': call = dict(self.refuse(o['parts'][0], cls, objs[on]), on=on)
            else:
                if w == 'json' and not exact(now[on]): w = 'bincode'
                call = dict(what=w, on=on, to=to)
                if w == 'file':
                    self.n += 1
                    call['f'] = os.path.join(self.d, 'out%d.yaml' % self.n)
            got = self.py.op(**call)
            word = '%s%s' % (w, ' (%s)' % ', '.join(o['parts']) if w == 'refused' else ' ' + cls)
            if w == 'refused':
                if 'exc' not in got: return '%s: a call that must be refused gave %s' % (word, json.dumps(got))
            elif 'ok' not in got: return '%s: %s' % (word, json.dumps(got)[:300])
            shown = self.py.op(what='look').get('ok')
            if shown is None: return '%s: afterwards nothing can be read' % word
            if set(shown) != set(now): return '%s: objects %s' % (word, sorted(shown))
            for s in sorted(now):
                x = differ(seen(now[s], objs[s]['cls'], P), shown[s], objs[s]['cls'])
                if x: return 'after %s: %s' % (word, x)
            if to or on:
                s = to or on
                x = self.text(s, objs[s], now[s])
                if x: return 'after %s: %s' % (word, x)
        for s in sorted(now):
            x = self.text(s, objs[s], now[s])
            if x: return 'in the end: %s' % x
        return None
    def text(self, s, o, v):
        t = self.py.op(what='text', on=s).get('ok')
        if not t: return '%s cannot be serialized' % o['cls']
        self.rust(op='new', s='z', ty=o['cls'], v=v)
        for f in ('bin', 'json', 'yaml'):
            if t[f] != self.rust(op='ser', s='z', fmt=f): return '%s: the %s form is not that of the library: %s' % (o['cls'], f, str(t[f])[:300])
        return None
    def form(self, o, forms):
        k = json.dumps(o, sort_keys=True)
        if k not in forms:
            flat = {}
            for p, c in o['at'].items():
                path = tuple(json.loads(p))
                if path == ('m',): flat[path] = c['n']
                elif c['by'] > 0: flat[path] = self.results[c['by'] - 1][tuple(c['src'])]
                elif c['by'] < 0: flat[path] = self.default(DEFAULT_OF[-c['by'] - 1])[tuple(c['src'])]
                else: flat[path] = value(c, path, o['cls'])
            forms[k] = nest(flat, o['cls'])
        return forms[k]
    def close(self):
        self.rs.close(); self.py.close()
DEFAULT_OF = ['ThermalMass', 'ThermalReservoir', 'Conductance', 'AdaptiveSolverConfig', 'SolverState', 'SystemState', 'ThermalMassState', 'ConductanceState',
              'SolverStateHistoryVec', 'ThermalMassStateHistoryVec', 'ConductanceStateHistoryVec', 'SystemStateHistoryVec', 'System3TM', 'System3TMWithBC']

def check(chk, binary, n, steps):
    d = workdir('python')
    t0 = time.time()
    try: build_module(os.path.join(d, 'mod'))
    except Unbuildable as e:
        chk.violation('C22: the Python module no longer builds: ' + str(e)[-600:], {'build': str(e)})
        return
    chk.phase('module', t0)
    trs = behaviours(chk, 'pyRuns', 'pyapi.qnt', n, steps, SEED) + behaviours(chk, 'pyShop', 'pyapi.qnt', max(8, n // 8), 25, SEED + 4, step='workshop')
    t0 = time.time()
    classes = Py(os.path.join(d, 'mod'), d)
    names = classes.op(what='names').get('ok')
    classes.close()
    if not names: raise ToolError('the Python module does not load')
    missing = set(DEFAULT_OF) - set(names)
    if missing:
        chk.violation('C22: classes missing from the module: %s' % ', '.join(sorted(missing)), {'classes': names})
        return
    def one(x):
        k, tr = x
        p = Replay(binary, os.path.join(d, 'mod'), os.path.join(d, 'run%d' % k), k, tr)
        try: return p.run(), p.py.log, p.ops
        finally: p.close()
    for k in range(len(trs)): os.makedirs(os.path.join(d, 'run%d' % k), exist_ok=True)
    with ThreadPoolExecutor(JOBS) as ex: res = list(ex.map(one, enumerate(trs)))
    chk.phase('code', t0)
    for (what, log, ops), tr in zip(res, trs):
        chk.traces += 1
        chk.add('replayed_operations', ops)
        for st in tr[1:]: chk.add('op_' + st['op']['what'], 1)
        if what: chk.violation('C22: ' + what, {'python': log[-40:]})
    bulk(chk, binary, d, n // 4, 7)
    chk.sample({'behaviour_of': 'pyRuns', 'operations': [[s['op']['what'], s['op']['cls']] for s in trs[0]]})
    shutil.rmtree(d, ignore_errors=True)

REALS = [0.0, 1.0, -2.5, 1e3, 0.125, -0.75, 3.0, 0.0625, 4096.0, -1.0]
def bulk(chk, binary, d, n, steps):
    """histories with tens of thousands of rows (behaviours of spec/bulk.qnt) passed through Python"""
    trs = behaviours(chk, 'bulkTrips', 'bulk.qnt', n, steps, SEED + 2, step='trips')
    t0 = time.time()
    hv = ['SolverStateHistoryVec', 'ThermalMassStateHistoryVec', 'ConductanceStateHistoryVec', 'SystemStateHistoryVec']
    got = run_scenarios(binary, [{'id': x, 'ops': [{'op': 'default', 's': 'a', 'ty': x[:-10]}, {'op': 'dump', 's': 'a'}]} for x in hv])
    T = {x: got[x]['out'][1]['ok'] for x in hv}
    def val(t, v):
        if isinstance(t, bool): return v % 2 == 1
        if isinstance(t, int): return v
        if t is None: return None if v == 0 else REALS[v]
        if isinstance(t, list): return [REALS[(v + j) % 10] for j in range(v % 4)]
        return REALS[v]
    def lookof(x): return hx(x) if isinstance(x, float) else [lookof(y) for y in x] if isinstance(x, list) else x
    def one(x):
        k, tr = x
        cls = hv[k % len(hv)]
        home = os.path.join(d, 'bulk%d' % k)
        os.makedirs(home, exist_ok=True)
        py = Py(os.path.join(d, 'mod'), home)
        r = random.Random('%d/%d' % (SEED, k))
        try:
            for j, st in enumerate(tr[1:]):
                rows = sum(q['count'] for q in st['runs'])
                cols = {f: [[val(t, (q['value'] + i) % 10), q['count']] for q in st['runs']] for i, (f, t) in enumerate(sorted(T[cls].items()))}
                way = r.choice(['json', 'bincode', 'bincode', 'file', 'clone', 'deepcopy', 'none'] + (['yaml', 'yaml'] if rows <= 12000 else []))
                o = py.op(what='bulk', cls=cls, way=way, cols=cols, f='h%d.json' % j)
                want = {'len': rows, 'cols': {}}
                for f, rs in cols.items():
                    want['cols'][f] = out = []
                    for v, c in rs:
                        if out and out[-1][0] == lookof(v): out[-1][1] += c
                        else: out.append([lookof(v), c])
                if o.get('ok') != want: return j, '%s with %d rows through Python (%s): %s, specification has %s' % (cls, rows, way, json.dumps(o)[:300], json.dumps(want)[:300])
            return len(tr) - 1, None
        finally: py.close()
    with ThreadPoolExecutor(JOBS) as ex: res = list(ex.map(one, enumerate(trs)))
    chk.phase('code', t0)
    for (m, what), tr in zip(res, trs):
        chk.traces += 1
        chk.add('long_histories_in_python', m)
        if what: chk.violation('C22: ' + what, {'behaviour': [[s['op'], s['runs']] for s in tr]})
    chk.cov['longest_history_in_python'] = max(sum(q['count'] for q in st['runs']) for tr in trs for st in tr)
