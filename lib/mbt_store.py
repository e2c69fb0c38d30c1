"""Replays behaviours of the store machine (spec/store.qnt) and every path of spec/suffix.qnt on the file system, inside a scratch
directory of its own. Objects of the specification are identities; the driver gives each a concrete object of the type under test."""
import copy, random, shutil, tempfile
from common import *
from model import TYPES
from walks import scenario as walk_scenario, METHODS, F_RECORDED

SYSTEMS = list(TYPES)
PLAIN = ['Mass', 'ThermalMass', 'ThermalReservoir', 'Wrapped', 'Conductance', 'Link', 'Probe', 'Recorder', 'SystemStateHistoryVec', 'SolverStateHistoryVec',
         'ThermalMassStateHistoryVec', 'ConductanceStateHistoryVec', 'MassStateHistoryVec', 'RecMixHistoryVec', 'RecNestHistoryVec', 'RecVecHistoryVec', 'RecWideHistoryVec',
         'AdaptiveSolverConfig', 'SolverTypes', 'SolverState', 'SystemState', 'RecMix', 'RecNest', 'Rec5']

# ---- values --------------------------------------------------------------------------------------------------------------
EXTREME = [0.0, -0.0, 1.7976931348623157e308, -1.7976931348623157e308, 2.2250738585072014e-308, 5e-324, -5e-324, 1e-310, 1e300, -1e300, 1e-300, 0.1, 0.1 + 0.2, 1 / 3, 2.0**53, 2.0**53 + 2, -(2.0**63),
           1e15, 1e16, 1e17, 123456789012345680.0, 9007199254740993.0, 1e22, 1e23, 3.141592653589793, 2.718281828459045e-5, 1.2345678901234567e-7, 4.9406564584124654e-320, 1.0000000000000002, 0.9999999999999999]
STRINGS = ['', 'a', 'null', '~', 'true', 'yes', '1e3', '0x10', ' lead', 'trail ', 'a: b', '# c', '- x', '"q"', "it's", 'l1\nl2\n', '\t', '\u00e9\u4e16\U0001f600', '{a: 1}', '[1]', '!tag', '&a', '*a', '%x', '@', '`', '\\n', '.inf', '1.0', '|', '>', '---', '\u0001\u007f']
def rnd_double(r):
    k = r.random()
    if k < .25: return r.choice(EXTREME)
    if k < .4: return float(r.randint(-1000, 1000)) / r.choice([1, 2, 8, 10])
    if k < .6: return r.uniform(-10, 10)
    while True:
        x = unbits(r.getrandbits(64))
        if x == x and abs(x) != float('inf'): return x
def rnd_solver_value(r):
    m = r.choice(METHODS)
    if m not in ('bs', 'ck'): return {'m': m, 'dt': hx(rnd_double(r))}
    st = lambda: {'dt': hx(rnd_double(r)), 'n_iter': r.randint(0, 255), 'norm_err': r.choice([None, [hx(rnd_double(r))]]), 'norm_err_rel': r.choice([None, [hx(rnd_double(r))]]),
                  't_curr': hx(rnd_double(r)), 'states': [hx(rnd_double(r)) for _ in range(r.randint(0, 3))]}
    rows = [st() for _ in range(r.choice([0, 0, 1, 5]))]
    s = st()
    return {'m': m, 'sc': {'dt_max': hx(rnd_double(r)), 'max_iter': r.randint(0, 255), 'atol': hx(rnd_double(r)), 'rtol': hx(rnd_double(r)), 'save': r.random() < .5,
                           'save_states': r.random() < .5, 'state': s, 'history': {k: [x[k] for x in rows] for k in s}}}
def rnd_value(r, t, key, ty, rows=None):
    """a value of the shape of t (the dump of a default)"""
    if key == 'solver_type' or ty == 'SolverTypes': return rnd_solver_value(r)
    if key == 'rhs': return {'eqs': [[{'c': hx(rnd_double(r)), 'tp': r.randint(0, 3), 'ys': [0] * r.randint(0, 2)}] for _ in range(r.randint(0, 2))]}
    if key == 'forced': return [{'j': 0, 'poly': [hx(rnd_double(r)) for _ in range(r.randint(0, 2))]} for _ in range(r.randint(0, 2))]
    if key == 'opts': return r.choice([None, [[r.randint(-100, 100), r.randint(-100, 100)]]])
    if key == 'limits': return r.choice([None, [[hx(rnd_double(r)), hx(rnd_double(r))]]])
    if isinstance(t, dict):
        out = {}
        for k, v in t.items():
            if k == 'history' and isinstance(v, dict) and 'state' in t:
                n = r.choice([0, 0, 1, 2, 7] if rows is None else [rows])
                rr = [rnd_value(r, t['state'], '', '') for _ in range(n)]
                out[k] = {c: [x[c] for x in rr] for c in v}
            else: out[k] = rnd_value(r, v, k, '', rows)
        return out
    if t is None: return r.choice([None, [hx(rnd_double(r))]])
    if isinstance(t, bool): return r.random() < .5
    if isinstance(t, int): return r.choice([0, 1, 255, r.randint(0, 127), r.randint(0, 127)]) if key not in ('i',) else r.choice([0, 3, 2**40 + 1])
    if isinstance(t, list): return [hx(rnd_double(r)) for _ in range(r.choice([0, 1, 3, 8]))]
    if re.fullmatch(r'x[0-9a-f]{16}', t): return hx(rnd_double(r))
    return r.choice(STRINGS)
def templates(binary, names):
    got = run_scenarios(binary, [{'id': n, 'ops': [{'op': 'default', 's': 'a', 'ty': n}, {'op': 'dump', 's': 'a'}]} for n in names])
    return {n: got[n]['out'][1]['ok'] for n in names}
def rnd_object(r, ty, T, rows=None):
    if ty.endswith('HistoryVec'):
        n = r.choice([0, 1, 2, 9]) if rows is None else rows
        rr = [rnd_value(r, T[ty[:-len('HistoryVec')]], '', '') for _ in range(n)]
        return {c: [x[c] for x in rr] for c in T[ty]}
    return rnd_value(r, T[ty], '', ty, rows)

# ---- equality of loaded values ---------------------------------------------------------------------------------------------
def lossy(x):
    """the double that serde_json without `float_roundtrip` reads from the shortest decimal form of x (known finding of C19)"""
    if x != x or x in (float('inf'), float('-inf')) or x == 0: return x
    s = repr(abs(x))
    m, _, e = s.partition('e')
    a, _, f = m.partition('.')
    digits = (a + f).lstrip('0')
    exp = int(e or 0) - len(f)
    if digits.rstrip('0'):
        k = len(digits) - len(digits.rstrip('0'))
        digits, exp = digits.rstrip('0'), exp + k
    kk = len(digits) + exp
    if exp >= 0 and kk <= 16: digits, exp = digits + '0' * exp + '0', -1     # written "1200.0"
    f = float(int(digits))
    while True:
        if abs(exp) <= 308:
            f = f * float('1e%d' % exp) if exp >= 0 else f / float('1e%d' % -exp)
            break
        if exp >= 0: return float('inf')
        f /= 1e308
        exp += 308
    return f if x > 0 else -f
HEX = re.compile(r'x[0-9a-f]{16}$')
class Loads:
    """compares what was loaded with what was stored"""
    def __init__(self): self.finding = 0
    def same(self, a, b, fmt, path=''):
        """None, or where and how b, loaded from format fmt, is not a"""
        if isinstance(a, dict):
            if not isinstance(b, dict) or set(a) != set(b): return '%s: %s loaded as %s' % (path, json.dumps(a)[:80], json.dumps(b)[:80])
            for k in a:
                d = self.same(a[k], b[k], fmt, path + '.' + k)
                if d: return d
            return None
        if isinstance(a, list):
            if not isinstance(b, list) or len(a) != len(b): return '%s: %s loaded as %s' % (path, json.dumps(a)[:80], json.dumps(b)[:80])
            for k in range(len(a)):
                d = self.same(a[k], b[k], fmt, '%s[%d]' % (path, k))
                if d: return d
            return None
        if a == b and type(a) == type(b): return None
        if isinstance(a, str) and isinstance(b, str) and HEX.match(a) and HEX.match(b):
            if fmt == 'json' and hx(lossy(unhx(a))) == b:
                self.finding += 1
                return None
            return '%s: %r loaded as %r' % (path[1:], unhx(a), unhx(b))
        return '%s: %s loaded as %s' % (path[1:], json.dumps(a)[:80], json.dumps(b)[:80])
def overflows(d):
    """a double that the lossy reading takes out of range, so that loading fails (part of the same finding)"""
    if isinstance(d, dict): return any(overflows(x) for x in d.values())
    if isinstance(d, list): return any(overflows(x) for x in d)
    return isinstance(d, str) and bool(HEX.match(d)) and abs(unhx(d)) != float('inf') and abs(lossy(unhx(d))) == float('inf')
def finite(d):
    if isinstance(d, dict): return all(finite(x) for x in d.values())
    if isinstance(d, list): return all(finite(x) for x in d)
    return not (isinstance(d, str) and HEX.match(d)) or abs(unhx(d)) < float('inf')
def in_text(d, j, path=''):
    """None, or where the JSON text, read exactly, does not say d"""
    if isinstance(d, dict):
        if 'm' in d and set(d) <= {'m', 'dt', 'sc'}:
            if not isinstance(j, dict) or len(j) != 1: return path
            return in_text(d.get('sc') or {'dt': d['dt']}, list(j.values())[0], path)
        if not isinstance(j, dict) or set(j) != set(d): return path
        for k in d:
            x = in_text(d[k], j[k], path + '.' + k)
            if x: return x
        return None
    if isinstance(d, list):
        if not isinstance(j, list): return in_text(d[0], j, path) if len(d) == 1 else path
        if len(d) == 1 and isinstance(d[0], list) and not (j and isinstance(j[0], list)): return in_text(d[0], j, path)
        if len(j) != len(d): return path
        for k in range(len(d)):
            x = in_text(d[k], j[k], '%s[%d]' % (path, k))
            if x: return x
        return None
    if isinstance(d, str) and HEX.match(d): return None if isinstance(j, float) and hx(j) == d else path + ': %r' % (j,)
    return None if d == j and isinstance(d, bool) == isinstance(j, bool) else path

# ---- damage --------------------------------------------------------------------------------------------------------------
def damaged(r, kind, fmt, raw, dump):
    """bytes that are not a correct text of any object of the type"""
    if kind == 'empty': return b''
    if kind == 'cut':
        s = raw.rstrip(b'\n \t') if fmt != 'bin' else raw
        return s[:len(s) - 1]
    if kind == 'words': return b'some words'
    if kind == 'list': return b'[]'
    if kind == 'number': return b'5'
    if kind == 'null': return b'null'
    if kind == 'half': return raw.rstrip()[:max(1, len(raw.rstrip()) // 2)]
    if kind == 'trailing': return raw + (b'\n{}' if fmt == 'json' else b'\n--- 5\n')
    text = raw.decode()
    # a field that is not optional, at any depth
    paths = []
    def go(d, p):
        if isinstance(d, dict) and not ('m' in d and set(d) <= {'m', 'dt', 'sc'}):
            for k, v in d.items():
                if v is not None and not k in ('opts', 'limits', 'norm_err', 'norm_err_rel', 'o', 'p', 'w04'): paths.append((p + [k], v))
                go(v, p + [k])
    go(dump, [])
    if fmt == 'json':
        j = json.loads(text)
        if not paths: return b'{"x": 1}'
        p, v = r.choice(paths)
        o = j
        for k in p[:-1]: o = o[k]
        if kind == 'wrongtype': o[p[-1]] = bad_value(v)
        else:
            x = o.pop(p[-1])
            if kind == 'renamed': o[p[-1] + '_'] = x
        return json.dumps(j).encode()
    # YAML: top-level fields only
    if not paths: return b'x: 1\n'
    p = r.choice([(p, v) for p, v in paths if len(p) == 1])
    lines, out, k = text.split('\n'), [], 0
    key = p[0][0]
    while k < len(lines):
        if re.match(re.escape(key) + r':', lines[k]):
            body = [lines[k]]
            k += 1
            while k < len(lines) and (lines[k][:1] in (' ', '-', '') and lines[k] != ''): body.append(lines[k]); k += 1
            if kind == 'renamed': out += [body[0].replace(key + ':', key + '_:', 1)] + body[1:]
            elif kind == 'wrongtype': out.append(key + ': ' + json.dumps(bad_value(p[1])))
        else:
            out.append(lines[k])
            k += 1
    return '\n'.join(out).encode()
def bad_value(v):
    if isinstance(v, str) and not HEX.match(v): return []   # YAML reads a number as a text
    if isinstance(v, list): return 5
    if isinstance(v, dict): return 5
    return 'x'

# ---- replay ---------------------------------------------------------------------------------------------------------------
def snapshot(root):
    out = {}
    for d, ds, fs in os.walk(root):
        for f in ds: out[os.path.relpath(os.path.join(d, f), root)] = None
        for f in fs:
            p = os.path.join(d, f)
            out[os.path.relpath(p, root)] = ('link', os.readlink(p)) if os.path.islink(p) else open(p, 'rb').read()
    return out
def scratch():
    d = tempfile.mkdtemp(prefix='store-', dir=workdir('store'))
    return d

class Replay:
    def __init__(self, binary, tr, ty, T, seed, chk, tags):
        self.r, self.ty, self.T, self.chk, self.tags, self.tr = random.Random(seed), ty, T, chk, tags, tr
        self.dir = scratch()
        self.cmp = Loads()
        self.log = []
        self.live = Live(binary, cwd=self.dir)
        self.act = {}        # slot -> (dump, runnable)
        self.cont = {}       # name -> (dump, runnable)
        self.text = {}
        self.counts = {}
    def bad(self, tag, what):
        for t in tag:
            if t in self.tags: self.chk.violation('%s: %s (%s)' % (t, what, self.ty), {'type': self.ty, 'operations': self.log[-40:]})
        return True
    def op(self, **o):
        self.log.append({k: (v if len(json.dumps(v)) < 400 else '...') for k, v in o.items()})
        return self.live.op(**o)
    def dump(self, s): return self.live.op(op='dump', s=s)['ok']
    def create(self, s):
        r = self.r
        if self.ty in TYPES and r.random() < .65:
            sc = walk_scenario(r, r.choice(METHODS), types=[self.ty], save=r.random() < .7, twin=False, rerun=False)
            self.op(op='new', s=s, ty=self.ty, v=sc.obj)
            run = True
        else:
            self.op(op='new', s=s, ty=self.ty, v=rnd_object(r, self.ty, self.T, rows=r.choice([None, None, None, 60])))
            run = False
        self.act[s] = (self.dump(s), run)
    def evolve(self, s):
        d, run = self.act[s]
        r = self.r
        if run:
            ms = ['walk', 'save_state', 'update_derivs', 'walk']
            if d['state']['i'] < len(d['t_report']): ms += ['solve_step', 'hand', 'hand', 'hand']
            self.op(op='call', s=s, m=r.choice(ms), a=None)
        else: self.op(op='patch', s=s, v=rnd_object(r, self.ty, self.T))
        self.act[s] = (self.dump(s), run)
    def loaded(self, tag, ctx, want, fmt, res, slot, eq_with=None):
        """a load that must give `want`"""
        d, run = want
        if 'ok' not in res:
            if fmt == 'json' and (overflows(d) or not finite(d)):
                self.cmp.finding += 1
                return False
            return self.bad(tag, '%s: %s' % (ctx, json.dumps(res)[:200]))
        got = self.dump(slot)
        if fmt == 'json' and not finite(d): return False
        x = self.cmp.same(d, got, fmt)
        if x: return self.bad(tag, '%s: %s' % (ctx, x))
        if got == d and eq_with is not None:
            e = self.live.op(op='eq', s=slot, to=eq_with)
            if e.get('ok') is not True: return self.bad(tag, '%s: the loaded object does not compare equal' % ctx)
        if got == d:
            for f in ('json', 'yaml', 'bin'):
                a = self.live.op(op='ser', s=slot, fmt=f)
                if eq_with is not None and a != self.live.op(op='ser', s=eq_with, fmt=f): return self.bad(tag, '%s: the serialized form changes' % ctx)
        self.act[slot] = (got, run)
        return False
    def check_text(self, tag, ctx, raw, d):
        if not finite(d): return False
        try: j = json.loads(raw)
        except ValueError as e: return self.bad(tag, '%s: not JSON: %s' % (ctx, e))
        x = in_text(d, j)
        if x: return self.bad(tag, '%s: the text does not say what the object has at %s' % (ctx, x))
        return False
    def run(self, names):
        """names: the NAMES of the specification"""
        try: return self.run_(names)
        finally:
            self.live.close()
            shutil.rmtree(self.dir, ignore_errors=True)
    def run_(self, names):
        P = [''.join(n['path']) for n in names]
        rel = [self.r.random() < .5 for _ in P]
        N = [p if k else os.path.join(self.dir, p) for p, k in zip(P, rel)]
        A = [os.path.join(self.dir, p) for p in P]
        for n, a in zip(names, A):
            if n['place'] == 'dir': os.makedirs(a)
            elif n['place'] == 'full': os.symlink('/dev/full', a)
        for st in self.tr[1:]:
            o, must = st['op'], st['must']
            w, s, n = o['what'], o['slot'], o['name']
            self.counts[w] = self.counts.get(w, 0) + 1
            self.log.append({'step': w, 'must': must})
            fmt = 'json' if P[n].endswith('json') else 'yaml'
            if w == 'create': self.create(s)
            elif w == 'evolve': self.evolve(s)
            elif w == 'save':
                before = snapshot(self.dir)
                room = None
                if names[n]['place'] == 'tight':
                    k = len(self.live.op(op='ser', s=s, fmt=fmt)['ok'].encode())
                    room = max(0, self.r.choice([0, 1, k // 2, k - 1, k - 1, k, k + 1, k - 7, 4096, 8192, k // 4096 * 4096, k // 8192 * 8192, 3 * k + 4096, 3 * k + 4096]))
                    self.live.room(room)
                    self.log.append({'room': room, 'text': k})
                r = self.op(op='to_file', s=s, f=N[n])
                if room is not None: self.live.room(None)
                after = snapshot(self.dir)
                ctx = 'saving to %r' % P[n]
                if 'ok' not in r and 'err' not in r: return self.bad({'C21'}, '%s: %s' % (ctx, r))
                if self.dump(s) != self.act[s][0]: return self.bad({'C21'}, '%s changes the object' % ctx)
                if room is not None and 'err' in r:
                    if room > 3 * k + 4000: return self.bad({'C21'}, '%s with enough room: %s' % (ctx, r))
                    ch = {x for x in set(before) | set(after) if before.get(x, 0) != after.get(x, 0)}
                    if not ch <= {P[n]}: return self.bad({'C21'}, '%s without room changes %s' % (ctx, sorted(ch)))
                elif must == 'ok' or room is not None:
                    if 'ok' not in r: return self.bad({'C21'}, '%s: %s' % (ctx, r))
                    ch = {k for k in set(before) | set(after) if before.get(k, 0) != after.get(k, 0)}
                    if not ch <= {P[n]}: return self.bad({'C21'}, '%s changes %s' % (ctx, sorted(ch)))
                    if P[n] not in after: return self.bad({'C21'}, '%s: no such file afterwards' % ctx)
                    raw = after[P[n]]
                    if fmt == 'json' and self.check_text({'C21', 'C19'}, ctx, raw, self.act[s][0]): return True
                    self.cont[n] = self.act[s]
                    if room is not None and len(raw) > room: raise ToolError('no limit on file sizes')
                    t = self.live.op(op='de', s='y', ty=self.ty, fmt=fmt, v=raw.decode('utf8', 'replace'))
                    if self.loaded({'C21'} if room is not None else {'C21', 'C19'}, ctx + ', what the file then holds', self.act[s], fmt, t, 'y', s): return True
                else:
                    if 'err' not in r: return self.bad({'C21'}, '%s (%s) reports success' % (ctx, names[n]['place']))
                    if before != after: return self.bad({'C21'}, '%s (%s) fails but changes %s' % (ctx, names[n]['place'], sorted(k for k in set(before) | set(after) if before.get(k, 0) != after.get(k, 0))))
            elif w in ('load', 'adopt'):
                q = st['files'][n]
                if w == 'load' and q[0] == 'Damaged': self.counts['load_%s_%s' % (q[1], fmt)] = self.counts.get('load_%s_%s' % (q[1], fmt), 0) + 1
                before = snapshot(self.dir)
                r = self.op(op='from_file', s=s, ty=self.ty, f=N[n])
                ctx = 'loading %r' % P[n]
                if snapshot(self.dir) != before: return self.bad({'C21'}, '%s changes files' % ctx)
                if 'ok' not in r and 'err' not in r: return self.bad({'C21'}, '%s: %s' % (ctx, r))
                if must == 'error' and 'ok' in r: return self.bad({'C21'}, '%s (%s) reports success' % (ctx, self.what(st, n)))
                if must == 'ok':
                    if self.loaded({'C21', 'C19'}, ctx, self.cont[n], fmt, r, s): return True
                    if w == 'adopt' and 'ok' not in r: return False  # the known finding: nothing to continue with
                if must == 'either' and 'ok' in r and finite(self.cont[n][0]):
                    x = self.cmp.same(self.cont[n][0], self.dump(s), 'json')
                    if x: return self.bad({'C21'}, '%s: %s' % (ctx, x))
            elif w == 'damage':
                raw = open(A[n], 'rb').read() if os.path.exists(A[n]) else b''
                with open(A[n], 'wb') as f: f.write(damaged(self.r, o['arg'], fmt, raw, self.cont[n][0] if n in self.cont else {}))
                self.log.append({'file': P[n], 'is': open(A[n], 'rb').read()[:600].decode('utf8', 'replace')})
            elif w == 'copy':
                shutil.copyfile(A[n], A[o['other']])
                self.cont[o['other']] = self.cont[n]
            elif w == 'remove': os.unlink(A[n])
            elif w == 'write':
                f = o['arg']
                r = self.op(op='ser', s=s, fmt=f)
                if 'ok' not in r: return self.bad({'C19'}, 'writing %s: %s' % (f, r))
                if self.dump(s) != self.act[s][0]: return self.bad({'C19'}, 'writing %s changes the object' % f)
                if f == 'json' and self.check_text({'C19'}, 'writing JSON', r['ok'], self.act[s][0]): return True
                self.text[s] = (r['ok'], f, self.act[s])
            elif w == 'spoil':
                t, f, held = self.text[s]
                raw = bytes(t) if f == 'bin' else t.encode()
                q = damaged(self.r, o['arg'], f, raw, held[0])
                self.text[s] = (list(q) if f == 'bin' else q.decode('utf8', 'replace'), f, held)
            elif w == 'read':
                t, f, held = self.text[o['arg']]
                r = self.op(op='de', s=s, ty=self.ty, fmt=f, v=t)
                if 'ok' not in r and 'err' not in r: return self.bad({'C19', 'C21'}, 'reading %s: %s' % (f, r))
                if must == 'error':
                    if 'ok' in r: return self.bad({'C21'}, 'reading %s damaged text reports success: %r' % (f, t if f == 'bin' else t[:300]))
                else:
                    if self.loaded({'C19'}, 'reading %s text' % f, held, f, r, s): return True
                    if 'ok' not in r: return False
            else: raise ToolError('no operation ' + w)
        return False
    def what(self, st, n): return str(st['files'][n])

def check(chk, binary, n, steps, tags, seed=1, rich=True):
    trs = behaviours(chk, 'storeRuns', 'store.qnt', n, steps, SEED + seed)
    t0 = time.time()
    T = templates(binary, sorted(set(SYSTEMS + PLAIN + [x[:-len('HistoryVec')] for x in PLAIN if x.endswith('HistoryVec')])))
    r = random.Random('%d/%d' % (SEED, seed))
    jobs = []
    for k, tr in enumerate(trs):
        ty = (SYSTEMS if k % 2 else PLAIN)[(k // 2) % len(SYSTEMS if k % 2 else PLAIN)]
        jobs.append(Replay(binary, tr, ty, T, '%d/%d/%d' % (SEED, seed, k), chk, tags))
    names = trs[0][0]['names']
    with ThreadPoolExecutor(JOBS) as ex: list(ex.map(lambda j: j.run(names), jobs))
    chk.phase('code', t0)
    chk.traces += len(jobs)
    chk.add('stored_types', len({j.ty for j in jobs}))
    for j in jobs:
        for k, v in j.counts.items(): chk.add('store_' + k, v)
    shutil.rmtree(workdir('store'), ignore_errors=True)
    chk.sample({'behaviour_of': 'storeRuns', 'type': jobs[0].ty, 'operations': [s['op']['what'] + '/' + s['must'] for s in trs[0][1:]]})
    return sum(j.cmp.finding for j in jobs)

# ---- every path ---------------------------------------------------------------------------------------------------------------
def paths(chk, binary, main, steps, tags):
    """every path of the enumeration: saved to and loaded from in a directory of its own, given absolutely, relative to the scratch
    directory or, from inside the directory, as it stands (so does the empty path), with the place empty or holding a well-formed file before"""
    tr = behaviours(chk, main, 'suffix.qnt', 1, steps, SEED)[0]
    t0 = time.time()
    root = scratch()
    r = random.Random('%d/paths' % SEED)
    scs, plan = [], []
    for k, st in enumerate(tr):
        p, f = ''.join(st['verdict']['path']), st['verdict']['format']
        base = os.path.join(root, '%d' % (k // 1000), '%d' % k)
        home = os.path.join(base, 'u', 'v', 'w')
        os.makedirs(home)
        name = os.path.join(home, p) if p and not p.startswith('/') else home + '/' + p
        parent = os.path.dirname(name)
        os.makedirs(parent, exist_ok=True)
        held = None
        if r.random() < .6 and not os.path.isdir(name) and not name.endswith('/'):
            held = r.choice([b'{"i":3,"time":1.5}', b'{"i":3,"time":1.5}', b'i: 3\ntime: 1.5\n'])
            with open(name, 'wb') as fh: fh.write(held)
        u = r.random()
        bare = not p.startswith('/') and (u < .4 or not p)
        given = p if bare else os.path.relpath(home, root) + '/' + p if u < .7 else name
        i = r.randint(0, 9)
        ops = [{'op': 'new', 's': 'a', 'ty': 'SystemState', 'v': {'i': i, 'time': hx(i + .5)}}]
        if held: ops += [{'op': 'from_file', 's': 'b', 'ty': 'SystemState', 'f': given}]
        ops += [{'op': 'to_file', 's': 'a', 'f': given}, {'op': 'from_file', 's': 'c', 'ty': 'SystemState', 'f': given}]
        if f: ops += [{'op': 'dump', 's': 'c'}]
        if bare: ops = [{'op': 'cd', 'f': home}] + ops + [{'op': 'cd', 'f': root}]
        scs.append({'id': k, 'ops': ops})
        plan.append((p, f, base, name, held, i, bare, snapshot(base)))
    res = run_scenarios(binary, scs, cwd=root)
    n = {'': 0, 'json': 0, 'yaml': 0}
    for k, (p, f, base, name, held, i, bare, before) in enumerate(plan):
        n[f] += 1
        o = res[k].get('out')
        if not o:
            if not res[k].get('skipped'): chk.violation('C21: path %r: the process dies or hangs' % p, {'path': p})
            continue
        after = snapshot(base)
        rel = os.path.relpath(os.path.normpath(name), base)
        q = 2 if bare else 1
        def bad(x): chk.violation('C21: path %r: %s' % (p, x), {'path': p, 'result': o})
        if any('panic' in x for x in o): bad('panic'); continue
        if held:
            if f == '' and 'ok' in o[q]: bad('loading succeeds, the suffix is not supported'); continue
            if (f == 'json' and held[:1] == b'{' or f == 'yaml' and held[:1] == b'i') and 'ok' not in o[q]: bad('loading a well-formed file fails'); continue
            if f == 'json' and held[:1] == b'i' and 'ok' in o[q]: bad('loading a YAML file as JSON succeeds'); continue
            q += 1
        if f == '':
            if 'ok' in o[q]: bad('saving succeeds, the suffix is not supported')
            elif 'ok' in o[q + 1]: bad('loading succeeds, the suffix is not supported')
            elif before != after: bad('saving or loading with an unsupported suffix changes files')
            continue
        if 'ok' not in o[q] or 'ok' not in o[q + 1]: bad('saving and loading back fails')
        elif o[q + 2]['ok'] != {'i': i, 'time': hx(i + .5)}: bad('another object is loaded')
        else:
            ch = {x for x in set(before) | set(after) if before.get(x, 0) != after.get(x, 0)}
            if ch - {rel}: bad('files other than the named one change: %s' % sorted(ch))
            elif (after[rel].lstrip()[:1] == b'{') != (f == 'json'): bad('the file is not in the format of its suffix')
    chk.phase('code', t0)
    chk.traces += len(plan)
    for f, c in n.items(): chk.add('paths_' + (f or 'unsupported'), c)
    shutil.rmtree(workdir('store'), ignore_errors=True)

def demonstrate(chk, binary):
    """whether doubles are still loaded inexactly from JSON (known finding of C19)"""
    xs = [x for x in (unbits(0x3ff0000000000000 + k * 0x123456789ab) for k in range(200)) if lossy(x) != x][:5]
    res = run_scenarios(binary, [{'id': k, 'ops': [{'op': 'new', 's': 'a', 'ty': 'SystemState', 'v': {'i': 0, 'time': hx(x)}}, {'op': 'trip', 's': 'a', 'to': 'b', 'fmt': 'json', 'ty': 'SystemState'},
                                                   {'op': 'dump', 's': 'b'}]} for k, x in enumerate(xs)])
    off = [k for k, x in enumerate(xs) if res[k]['out'][-1].get('ok', {}).get('time') != hx(x)]
    chk.sample({'json_doubles': [repr(x) for x in xs], 'loaded': [repr(unhx(res[k]['out'][-1]['ok']['time'])) for k in off]})
    return bool(off)
