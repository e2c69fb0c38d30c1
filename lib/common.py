"""Shared machinery: building the harness from /repo's working tree, running scenarios, running Quint, evidence, verdicts."""
import socket, json, os, random, re, struct, subprocess, sys, tempfile, time, shutil
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
BUILD = os.path.join(VERIF, '.build')
SPEC = os.path.join(VERIF, 'spec')
SEED = int(os.environ.get('VERIF_SEED', '1') or '1')
TIER = os.environ.get('VERIF_TIER', 'quick')
THOROUGH = TIER == 'thorough'
JOBS = 8
NODE_ENV = {'NODE_OPTIONS': '--stack-size=60000'}

class ToolError(Exception):
    pass

def env(**kw):
    e = dict(os.environ)
    e.update(HOME='/root', LANG='C.UTF-8', RUSTUP_TOOLCHAIN='stable-x86_64-unknown-linux-gnu', CARGO_NET_OFFLINE='true',
             CARGO_TERM_COLOR='never', RUSTC_WRAPPER='', CARGO_INCREMENTAL='0', CARGO_PROFILE_DEV_DEBUG='0',
             PYO3_PYTHON='/usr/bin/python3.12', RUST_BACKTRACE='0')
    e['PATH'] = '/usr/local/bin:/usr/bin:/bin:/usr/sbin:/sbin:' + e.get('PATH', '')
    e.update(kw)
    return e

# ---- doubles ---------------------------------------------------------------------------------------------------------
def bits(x):
    return struct.unpack('<Q', struct.pack('<d', x))[0]
def unbits(w):
    return struct.unpack('<d', struct.pack('<Q', w))[0]
def hx(x):
    """JSON form of a double for the harness"""
    return 'x%016x' % bits(float(x))
def unhx(s):
    return unbits(int(s[1:], 16))
def hbits(s):
    return int(s[1:], 16)

# ---- harness ---------------------------------------------------------------------------------------------------------
class Unbuildable(Exception):
    """the library no longer compiles for a program that uses its documented interface"""

def build_harness():
    t0 = time.time()
    src = os.path.join(VERIF, 'harness')
    tgt = os.path.join(BUILD, 'h')
    os.makedirs(tgt, exist_ok=True)
    p = subprocess.run(['cargo', 'build', '--offline', '--quiet', '--manifest-path', os.path.join(src, 'Cargo.toml')],
                       env=env(CARGO_TARGET_DIR=tgt), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    if p.returncode:
        errs = [l for l in p.stderr.splitlines() if l.startswith('error')]
        raise Unbuildable('\n'.join(p.stderr.splitlines()[-60:]))
    return os.path.join(tgt, 'debug', 'vharness'), time.time() - t0

def _shard(binary, lines, limit, total, cwd=None):
    """runs one shard; a process that dies is a crash of the scenario in progress, and the rest is run in a new process"""
    out, todo = {}, list(lines)
    deaths = 0
    while todo:
        try:
            p = subprocess.run([binary, str(limit)], input='\n'.join(json.dumps(x) for x in todo) + '\n', stdout=subprocess.PIPE,
                               stderr=subprocess.DEVNULL, text=True, timeout=total, preexec_fn=_limits, cwd=cwd)
            text = p.stdout
        except subprocess.TimeoutExpired as e:
            text = (e.stdout or b'').decode() if isinstance(e.stdout, bytes) else (e.stdout or '')
        started = None
        for l in text.splitlines():
            try:
                r = json.loads(l)
            except ValueError:
                continue
            if 'start' in r:
                started = r['start']
            else:
                out[r['id']] = r
                started = None
        rest = [x for x in todo if x['id'] not in out]
        if rest:
            if started is None and len(rest) == len(todo):
                raise ToolError('harness does not start')
            if started is not None:
                out[started] = {'id': started, 'hang': True, 'crash': True}
            rest = [x for x in rest if x['id'] != started]
            deaths += 1
            if deaths > 3:
                for x in rest:
                    out[x['id']] = {'id': x['id'], 'skipped': True}
                rest = []
        todo = rest
    return out

def _limits():
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    os.setpgid(0, 0)

def run_scenarios(binary, scs, limit=20, cwd=None):
    n = min(JOBS, max(1, len(scs)))
    shards = [scs[i::n] for i in range(n)]
    out = {}
    with ThreadPoolExecutor(n) as ex:
        for r in ex.map(lambda s: _shard(binary, s, limit, 600, cwd), shards):
            out.update(r)
    for x in scs:
        if x['id'] not in out:
            raise ToolError('no result for scenario %s' % x['id'])
        failed = False
        for o in out[x['id']].get('out', []):
            # what an operation that failed should have made is missing
            if isinstance(o, dict) and failed and str(o.get('err', '')).startswith('harness: no slot'): continue
            failed = failed or isinstance(o, dict) and ('err' in o or 'panic' in o)
            if isinstance(o, dict) and str(o.get('err', '')).startswith('harness:') or str(o.get('panic', '')).startswith('harness:'):
                raise ToolError('harness: %s in %s' % (o, json.dumps(x)[:400]))
    return out

class Live:
    """a harness process driven one operation at a time; objects stay between operations"""
    def __init__(self, binary, cwd=None):
        def pre():
            import signal
            _limits()
            signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
        self.p = subprocess.Popen([binary, '20'], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, cwd=cwd, restore_signals=False, preexec_fn=pre)
        self.n = 0
    def op(self, **op):
        self.n += 1
        try:
            self.p.stdin.write(json.dumps({'id': self.n, 'keep': True, 'ops': [op]}) + '\n')
            self.p.stdin.flush()
            while True:
                l = self.p.stdout.readline()
                if not l: return {'died': True}
                r = json.loads(l)
                if 'start' in r: continue
                if 'out' not in r: return {'hang': True}
                o = r['out'][0]
                if str(o.get('err', '')).startswith('harness:') or str(o.get('panic', '')).startswith('harness:'): raise ToolError('harness: %s in %s' % (o, json.dumps(op)[:300]))
                return o
        except BrokenPipeError:
            return {'died': True}
    def room(self, n):
        """largest size to which the process can make a file grow; None for no limit"""
        import resource
        resource.prlimit(self.p.pid, resource.RLIMIT_FSIZE, (resource.RLIM_INFINITY if n is None else n, resource.RLIM_INFINITY))
    def close(self):
        try:
            self.p.stdin.close()
            self.p.wait(5)
        except Exception: self.p.kill()
        self.p.stdout.close()

# ---- Quint -----------------------------------------------------------------------------------------------------------
def quint(args, timeout=600, cwd=SPEC, check=False, mem_mb=3000):
    e = env()
    e['NODE_OPTIONS'] = '--max-old-space-size=%d' % mem_mb
    try:
        p = subprocess.run(['quint'] + args, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise ToolError('quint %s: timeout' % ' '.join(args[:3]))
    if check and p.returncode:
        raise ToolError('quint %s: %s' % (' '.join(args), p.stdout[-3000:]))
    return p.returncode, p.stdout

def itf_val(v):
    """ITF value to Python: big integers, tuples, sets, maps, records and variants"""
    if isinstance(v, dict):
        if '#bigint' in v: return int(v['#bigint'])
        if '#tup' in v: return tuple(itf_val(x) for x in v['#tup'])
        if '#set' in v: return [itf_val(x) for x in v['#set']]
        if '#map' in v: return {_key(itf_val(k)): itf_val(x) for k, x in v['#map']}
        if 'tag' in v and 'value' in v and len(v) == 2: return (v['tag'], itf_val(v['value']))
        return {k: itf_val(x) for k, x in v.items() if k != '#meta'}
    if isinstance(v, list): return [itf_val(x) for x in v]
    return v
def _key(k):
    return k if not isinstance(k, (list, dict)) else json.dumps(k)

def pack(words):
    """one recorded execution as a number: 64-bit words, least significant first, preceded by their count"""
    v = len(words)
    for j, x in enumerate(words):
        v |= (x & (2**64 - 1)) << (64 * (j + 1))
    return hex(v)

def workdir(name):
    d = os.path.join(BUILD, 'run', '%s-%d' % (name, os.getpid()))
    os.makedirs(d, exist_ok=True)
    return d

def q_val(s):
    """a value as the Quint simulator prints it"""
    toks = re.findall(r'"(?:[^"\\]|\\.)*"|[A-Za-z_]\w*|-?\d+|->|[{}\[\](),:]', s)
    pos = 0
    def val():
        nonlocal pos
        t = toks[pos]; pos += 1
        if t == '{':
            out = {}
            while toks[pos] != '}':
                k = toks[pos]; pos += 2
                out[k] = val()
                if toks[pos] == ',': pos += 1
            pos += 1
            return out
        if t in '[(':
            end = {'[': ']', '(': ')'}[t]
            out = []
            while toks[pos] != end:
                out.append(val())
                if toks[pos] == ',': pos += 1
            pos += 1
            return out
        if t in ('Map', 'Set') and toks[pos] == '(':
            pos += 1
            out = []
            while toks[pos] != ')':
                k = val()
                if t == 'Map': pos += 1; k = (k, val())
                out.append(k)
                if toks[pos] == ',': pos += 1
            pos += 1
            return dict(out) if t == 'Map' else out
        if t[0] == '"': return t[1:-1]
        if t in ('true', 'false'): return t == 'true'
        if t.lstrip('-').isdigit(): return int(t)
        if pos < len(toks) and toks[pos] == '(':
            pos += 1
            v = val()
            pos += 1
            return (t, v)
        return (t, None)
    return val()

MAXWORDS = 5500
def check_traces(name, shards, module='trace', timeout=800):
    """shards: lists of (words, number of events). Returns (clauses that failed, coverage, events) over all shards."""
    d = workdir(name)
    rel = os.path.relpath(os.path.join(SPEC, module), d)
    def one(k):
        runs = shards[k]
        if not runs:
            return [], {}, 0
        nev = sum(n for _, n in runs)
        f = os.path.join(d, 't%d.qnt' % k)
        with open(f, 'w') as fh:
            fh.write('module tr {\n  import %s(DATA = [%s]).* from "%s"\n}\n' % (module, ',\n'.join(pack(w) for w, _ in runs), rel))
        rc, out = quint(['run', '--main', 'tr', '--max-samples', '1', '--max-steps', str(nev + 1), '--verbosity', '0', f], timeout=timeout, cwd=d)
        i = out.rfind('> VERDICT')
        if i < 0:
            raise ToolError('trace specification gave no verdict on %s: %s' % (f, out[-2000:]))
        v = q_val(out[i + len('> VERDICT'):])
        if v['taken'] != len(runs):
            raise ToolError('trace specification stopped early on %s' % f)
        return v['bad'], v['cov'], nev
    bad, cov, nev = [], {}, 0
    with ThreadPoolExecutor(JOBS) as ex:
        for b, c, n in ex.map(one, range(len(shards))):
            bad += b
            nev += n
            for k, v in c.items():
                cov[k] = cov.get(k, 0) + v
    if not os.environ.get("KEEP"): shutil.rmtree(d, ignore_errors=True)
    return bad, cov, nev

def model_check(chk, name, main, f, inv, init='init', step='step', timeout=600, tlc=True):
    """exhaustive exploration of a module by TLC; returns the number of distinct states"""
    t0 = time.time()
    d = workdir('tlc-' + name)
    e = env(TMPDIR=d)
    for attempt in range(3):
        # a port of its own: the default one may be taken
        with socket.socket() as k:
            k.bind(('127.0.0.1', 0))
            port = k.getsockname()[1]
        try:
            p = subprocess.run(['quint', 'verify', '--server-endpoint', 'localhost:%d' % port] + (['--backend', 'tlc'] if tlc else []) +
                               ['--main', main, '--init', init, '--step', step, '--invariant', inv, os.path.join(SPEC, f)],
                               cwd=d, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise ToolError('model checking %s: timeout' % main)
        if 'Address already in use' not in p.stdout: break
    m = re.search(r'(\d+) states generated, (\d+) distinct states found, 0 states left', p.stdout)
    if p.returncode or 'No violation found' not in p.stdout or not m:
        raise ToolError('model checking %s failed: %s' % (main, p.stdout[-2500:]))
    shutil.rmtree(d, ignore_errors=True)
    chk.transitions += int(m.group(1)); chk.states += int(m.group(2))
    chk.phase('model_checking', t0)
    chk.notes.append('%s: exhaustive, %s distinct states, invariant %s' % (main, m.group(2), inv))
    return int(m.group(2))

def behaviours(chk, main, f, n, steps, seed, init='init', step='step', jobs=4):
    """behaviours of a module: lists of states (dicts without the module prefix; '#action' and '#picks' from the simulator)"""
    t0 = time.time()
    d = workdir('mbt-' + main)
    jobs = max(1, min(jobs, n // 10))
    def one(k):
        m = n // jobs + (k < n % jobs)
        out = os.path.join(d, 'b%d_{seq}.itf.json' % k)
        rc, text = quint(['run', '--mbt', '--main', main, '--init', init, '--step', step, '--max-samples', str(m), '--n-traces', str(m), '--max-steps', str(steps),
                          '--seed', hex(seed * 1000 + k + 1), '--out-itf', out, '--verbosity', '0', os.path.join(SPEC, f)], cwd=d, mem_mb=4000)
        res = []
        for j in range(m):
            q = out.replace('{seq}', str(j))
            if not os.path.exists(q): raise ToolError('no behaviour %d of %s: %s' % (j, main, text[-1500:]))
            with open(q) as fh: itf = json.load(fh)
            os.unlink(q)
            tr = []
            for st in itf['states']:
                x = {k.split('::')[-1]: itf_val(v) for k, v in st.items() if k != '#meta' and not k.startswith('mbt::')}
                x['#action'] = st.get('mbt::actionTaken')
                x['#picks'] = {k: itf_val(v['value']) for k, v in st.get('mbt::nondetPicks', {}).items() if v.get('tag') == 'Some'}
                tr.append(x)
            res.append(tr)
        return res
    out = []
    with ThreadPoolExecutor(jobs) as ex:
        for r in ex.map(one, range(jobs)): out += r
    shutil.rmtree(d, ignore_errors=True)
    chk.phase('generation', t0)
    chk.transitions += sum(len(t) - 1 for t in out)
    seen = {json.dumps(s, sort_keys=True, default=str) for t in out for s in t}
    chk.states += len(seen)
    return out

# ---- verdicts ----------------------------------------------------------------------------------------------------------
class Check:
    def __init__(self, pid, level='model_checking'):
        self.pid, self.level, self.t0 = pid, level, time.time()
        self.violations, self.known, self.cov, self.samples = [], [], {}, []
        self.states = self.transitions = self.traces = 0
        self.notes = []
    def violation(self, what, replay):
        self.violations.append((what, replay))
    def sample(self, x, cap=4):
        if len(self.samples) < cap:
            s = json.dumps(x)
            self.samples.append(x if len(s) < 3000 else s[:3000])
    def phase(self, key, t0):
        k = 'seconds_' + key
        self.cov[k] = round(self.cov.get(k, 0) + time.time() - t0, 2)
    def add(self, key, n):
        self.cov[key] = self.cov.get(key, 0) + n
    def finish(self):
        ev = {'property': self.pid, 'tier': TIER, 'seed': SEED, 'level': self.level, 'wall_s': round(time.time() - self.t0, 2),
              'coverage': {**{'states': self.states, 'transitions': self.transitions, 'traces_validated_against_impl': self.traces,
                              'samples': self.samples}, **self.cov}}
        if self.known: ev['coverage']['known_findings'] = self.known
        if self.notes: ev['coverage']['notes'] = self.notes
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', self.pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        for k in self.known:
            print('KNOWN-FINDING: property=%s %s' % (self.pid, k))
        if self.violations:
            d = os.path.join(BUILD, 'replays')
            os.makedirs(d, exist_ok=True)
            seen = set()
            for n, (what, replay) in enumerate(self.violations[:20]):
                path = os.path.join(d, '%s-%d.json' % (self.pid, n))
                with open(path, 'w') as f:
                    json.dump({'property': self.pid, 'what': what, 'replay': replay}, f, indent=1)
                if n < 5:
                    print('VIOLATION property=%s replay=%s' % (self.pid, path))
                    print('  ' + what[:400])
            print('%s: %d violation(s), %.1f s' % (self.pid, len(self.violations), time.time() - self.t0))
            return 1
        print('%s: held on everything explored (%d states, %d transitions of the model, %d traces against the code), %.1f s' %
              (self.pid, self.states, self.transitions, self.traces, time.time() - self.t0))
        return 0
