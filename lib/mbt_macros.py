"""Programs that use the macros, generated from spec/macros.qnt, given to the compiler and, when accepted, run."""
import random
from common import *
from walks import *

OWN = '''#![allow(unused, dead_code)]
use dess::prelude::*;
use dess_examples::components::*;
use serde::{Serialize, Deserialize};
/// a component with a potential
#[pyo3_api]
#[derive(HistoryMethods, BareClone, Default)]
#[common_derives]
pub struct Tank { pub area: f64, pub state: TankState, pub history: TankStateHistoryVec }
#[pyo3_api]
#[derive(Copy, HistoryVec, Default)]
#[common_derives]
pub struct TankState { pub level: f64, pub rate: f64 }
impl HasState for Tank {
    fn set_state(&mut self, val: f64) { self.state.level = val; }
    fn state(&self) -> f64 { self.state.level }
    fn deriv(&self) -> f64 { self.state.rate }
    fn set_deriv(&mut self, val: f64) { self.state.rate = val; }
    fn step_deriv(&mut self, val: f64) { self.state.rate += val; }
    fn storage(&self) -> f64 { self.area }
}
/// components put together
#[pyo3_api]
#[derive(HistoryMethods, BareClone, Default)]
#[common_derives]
pub struct Pack { pub label: String, #[save_state] pub mass: ThermalMass, pub spare: ThermalMass, #[save_state] pub link: Conductance }
pub trait Rows { fn rows(&self) -> Vec<usize>; fn more(&mut self) {} }
impl Rows for ThermalMass { fn rows(&self) -> Vec<usize> { vec![self.history.temp.len(), self.history.dtemp.len()] } fn more(&mut self) { self.save_state() } }
impl Rows for ThermalReservoir { fn rows(&self) -> Vec<usize> { vec![self.history.temp.len(), self.history.dtemp.len()] } fn more(&mut self) { self.save_state() } }
impl Rows for Conductance { fn rows(&self) -> Vec<usize> { vec![self.history.q.len()] } fn more(&mut self) { self.save_state() } }
impl Rows for Tank { fn rows(&self) -> Vec<usize> { vec![self.history.level.len(), self.history.rate.len()] } fn more(&mut self) { self.save_state() } }
impl Rows for Pack { fn rows(&self) -> Vec<usize> { let mut r = self.mass.rows(); r.extend(self.link.rows()); r } fn more(&mut self) { self.save_state() } }
/// `what` holds in program `id`
pub fn expect(id: usize, what: &str, ok: bool) { if !ok { println!("BAD {} {}", id, what); } }
'''
DOCS = ['', '', '', '    /// documented\n', '    #[doc = "documented"]\n', '    #[allow(unused)]\n', '    #[serde(default)]\n', '    // a comment\n', '    /// one\n    /// two\n']
def body(x, tracked, py=False):
    k, n = x['kind'], x['name']
    if k == 'const': return '    const EXTRA: f64 = 1.0;\n'
    if k == 'type': return '    type Extra = f64;\n'
    if k == 'macro': return '    extra!{}\n'
    if k == 'words': return '    not an item\n'
    if k == 'struct': return '    struct Extra { x: f64 }\n'
    if n == 'update_derivs' and not py:
        return '    /// rates\n    fn update_derivs(&mut self) {\n%s    }\n' % ''.join('        self.%s.set_deriv(%d.0);\n' % (f['name'], j + 1) for j, f in enumerate(tracked))
    if n == '__new__': return '    #[new]\n    pub fn __new__() -> Self { Self::default() }\n'
    return '    fn %s(&self) -> f64 { 1.5 }\n' % n
SAMPLE = {'f64': '2.5', 'String': 'String::from("x\\"y")', 'Vec<f64>': 'vec![1.0, 2.0]', 'bool': 'true', 'Option<f64>': 'Some(0.5)', 'u32': '7', '[f64; 3]': '[1.0, 2.0, 3.0]', '(f64, u32)': '(1.0, 2)',
          'usize': '3', '[f64; 2]': '[0.5, 1.5]', 'i8': '-3', 'char': "'c'", '(f64, i64)': '(2.0, -9)'}
OTHER = {'f64': '-1.0', 'u32': '8', 'bool': 'false', 'usize': '4', '[f64; 2]': '[0.0, 9.5]', 'Option<f64>': 'None', 'i8': '100', 'char': "'d'", '(f64, i64)': '(3.0, 4)'}
def module(k, p, v, r):
    """source of one program and its test"""
    fs = p['fields']
    tracked = [f for f in fs if f['role'] in ('tracked', 'both')]
    recorded = [f for f in fs if f['role'] == 'recorded']
    plain = [f for f in fs if f['role'] == 'plain']
    own = any(f['role'] == 'state' for f in fs)
    rec = p['record'] if own and not p['system'] else []
    s = 'use crate::own::*;\nuse dess::prelude::*;\nuse dess_examples::components::*;\nuse serde::{Serialize, Deserialize};\n'
    if rec:
        s += '#[pyo3_api]\n#[derive(Copy, HistoryVec, Default)]\n#[common_derives]\npub struct Rec {\n%s}\n' % ''.join('    pub %s: %s,\n' % (f['name'], f['ty']) for f in rec)
    # the attributes in one of the orders in use
    api = '#[pyo3_api%s]\n' % ('(\n%s)' % ''.join(body(x, tracked, True) for x in p['pyItems']) if p['pyItems'] else r.choice(['', '()'])) if p['py'] else ''
    solver = '#[solver(\n%s)]\n' % ''.join(body(x, tracked) for x in p['items']) if p['system'] else ''
    derive, common = '#[derive(HistoryMethods, BareClone, Default)]\n', '#[common_derives]\n'
    c = r.random()
    if c < .4: head = api + solver + derive + common
    elif c < .7: head = solver + api + derive + common
    elif c < .85: head = common + api + solver + '#[derive(Default)]\n#[derive(BareClone, HistoryMethods)]\n'
    else: head = derive + api + solver + common
    if p['walk'] and p['py'] and p['system']: head += '#[walk]\n'
    s += head + '/// generated\npub struct Sys {\n'
    for f in fs:
        s += r.choice(DOCS)
        ty = f['ty']
        if rec and f['role'] == 'state': ty = 'Rec'
        if rec and f['role'] == 'history': ty = 'RecHistoryVec'
        mark = {'tracked': '#[use_state] ', 'recorded': '#[save_state] ', 'both': r.choice(['#[use_state] #[save_state] ', '#[save_state]\n    #[use_state] '])}.get(f['role'], '')
        skip = '#[skip_get] ' if f['skip'] and p['py'] else ''
        s += '    %s%s%s: %s,\n' % (mark + skip if r.random() < .5 else skip + mark, r.choice(['pub ', 'pub ', 'pub ', '', '', 'pub(crate) ']), f['name'], ty)
    s += '}\n'
    # ---- what an accepted program must do --------------------------------------------------------------------------------
    t = 'pub fn run() {\n    let mut x = Sys::default();\n'
    e = lambda what, cond: '    expect(%d, %s, %s);\n' % (k, json.dumps(what), cond)
    for f in plain:
        if f['ty'] in SAMPLE: t += '    x.%s = %s;\n' % (f['name'], SAMPLE[f['ty']])
        else: t += '    x.%s.set_state(4.5); x.%s.more(); x.%s.more();\n' % (f['name'], f['name'], f['name'])
    t += '    let first = x.clone();\n'
    keep = ''.join(e('plain field %s untouched' % f['name'], 'x.%s == first.%s' % (f['name'], f['name'])) for f in plain)
    if p['system']:
        n = len(v['order'])
        for j, f in enumerate(tracked):
            if f['ty'] == 'ThermalMass': t += '    x.%s.c = %d.5;\n' % (f['name'], j)
            if f['ty'] == 'Tank': t += '    x.%s.area = %d.5;\n' % (f['name'], j)
        t += '    x.t_report = vec![1.0, 2.0, 3.0];\n    x.solver_type = SolverTypes::EulerFixed { dt: 1.0 };\n'
        t += '    x.set_states(vec![%s]);\n' % ', '.join('%d.0' % (10 * (j + 1)) for j in range(n))
        t += ''.join(e('states are written in declaration order', 'x.%s.state() == %d.0' % (nm, 10 * (j + 1))) for j, nm in enumerate(v['order']))
        t += e('states are read in declaration order', 'x.states() == vec![%s] as Vec<f64>' % ', '.join('%d.0' % (10 * (j + 1)) for j in range(n)))
        t += e('storages are read in declaration order', 'x.storages() == vec![%s] as Vec<f64>' % ', '.join('f64::INFINITY' if f['ty'] == 'ThermalReservoir' else '%d.5' % j for j, f in enumerate(tracked)))
        rate = lambda m, a: '0.0' if tracked[m]['ty'] == 'ThermalReservoir' else '%d.0' % a
        t += '    x.set_derivs(&[%s]);\n' % ', '.join('%d.0' % (7 * (j + 1)) for j in range(n))
        t += e('derivatives are set in declaration order', 'x.derivs() == vec![%s] as Vec<f64>' % ', '.join(rate(j, 7 * (j + 1)) for j in range(n)))
        t += '    x.step_derivs(vec![%s]);\n' % ', '.join('%d.0' % (j + 1) for j in range(n))
        t += e('derivatives are stepped in declaration order', 'x.derivs() == vec![%s] as Vec<f64>' % ', '.join(rate(j, 8 * (j + 1)) for j in range(n)))
        t += '    x.reset_derivs();\n' + e('derivatives are reset', 'x.derivs() == vec![0.0; %d]' % n)
        t += '    x.step_time(&0.5); x.step_time(&-0.5);\n' + e('the clock returns', 'x.state.time == 0.0')
        t += '    x.walk();\n'
        t += e('the walk ends at the last report time', 'x.state.time == 3.0 && x.state.i == 3')
        t += e('the walk computes the states', 'x.states() == vec![%s] as Vec<f64>' % ', '.join('%d.0' % a for a in v['after']))
        t += e('the walk records its rows', 'x.history.time == vec![1.0, 2.0, 3.0] && x.history.i == vec![1, 2, 3]')
        rows = 3
    else:
        t += '    x.save_state();\n    x.save_state();\n'
        rows = 2
    for f in tracked + recorded:
        t += e('rows of %s' % f['name'], 'x.%s.rows().iter().all(|n| *n == %d)' % (f['name'], rows if f['name'] in v['recorded'] else 0))
    t += keep
    if p['system']:
        t += '    let prior = x.clone();\n    x.save_state();\n' + e('one more row of the system', 'x.history.time.len() == 4 && x.history.i.len() == 4')
        t += ''.join(e('one more row of %s' % f['name'], 'x.%s.rows().iter().all(|n| *n == 4)' % f['name']) for f in tracked + recorded)
        t += keep
    elif own:
        if rec:
            for j in range(2): t += '    x.state = Rec { %s };\n    x.save_state();\n' % ', '.join('%s: %s' % (f['name'], (SAMPLE if j else OTHER)[f['ty']]) for f in rec)
            for f in rec: t += e('column %s' % f['name'], 'x.history.%s.len() == 4 && x.history.%s[2] == %s && x.history.%s[3] == %s' % (f['name'], f['name'], OTHER[f['ty']], f['name'], SAMPLE[f['ty']]))
            t += e('rows of the component', 'x.history.len() == 4')
            t += '    let last = x.history.pop();\n' + e('last record', 'last == Some(x.state) && x.history.len() == 3')
        else: t += e('rows of the component', 'x.history.temp.len() == 2 && x.history.dtemp.len() == 2')
    t += '    let bare = x.bare_clone();\n'
    for f in fs:
        if f['role'] == 'history': t += e('a bare copy has no rows', 'bare.history == Default::default()')
        elif f['role'] in ('tracked', 'recorded', 'both'):
            t += e('a bare copy has no rows in %s' % f['name'], 'bare.%s.rows().iter().all(|n| *n == 0)' % f['name'])
            if f['ty'] == 'ThermalMass': t += e('a bare copy has the values of %s' % f['name'], 'bare.%s.c == x.%s.c && bare.%s.state == x.%s.state' % ((f['name'],) * 4))
        else: t += e('a bare copy has the %s of the original' % f['name'], 'bare.%s == x.%s' % (f['name'], f['name']))
    t += e('a copy is equal', 'x.clone() == x')
    if p['py']:
        t += '    let full = x.clone();\n' + e('binary form loads back', 'Sys::from_bincode(&full.to_bincode()).map(|y| y == full).unwrap_or(false)')
    return s + t + '}\n'

CARGO = '''[package]
name = "vmacros"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
dess = { path = "/repo/dess" }
dess-examples = { path = "/repo/dess-examples" }
serde = { version = "1.0.152", features = ["derive"] }
serde_json = "1.0.93"
serde_yaml = "0.9.17"
bincode = "1.3.3"
anyhow = "1.0.57"
pyo3 = { version = "0.18.1", features = ["extension-module", "anyhow"], optional = true }
[features]
pyo3 = ["dep:pyo3", "dess/pyo3", "dess-examples/pyo3"]
[profile.dev]
opt-level = 0
debug = 0
[lib]
path = "src/lib.rs"
crate-type = ["cdylib"]
'''
PYTEST = r'''
import sys, json, copy
sys.path.insert(0, sys.argv[1])
import vmacros
def plain(v):
    if isinstance(v, (tuple, list)): return [plain(x) for x in v]
    if v is None or isinstance(v, (bool, int, float, str)): return v
    return json.loads(v.to_json())
def program(q):
    C = getattr(vmacros, q['cls'])
    bad = lambda what, *v: print('BAD %d %s %s' % (q['id'], what, ' '.join(map(repr, v)))[:600])
    got = sorted(n for n, d in vars(C).items() if type(d).__name__ == 'getset_descriptor' and not n.startswith('__'))
    if got != sorted(q['shown']): bad('the readable fields should be others', got, sorted(q['shown']))
    x = C.default()
    try: made = C()
    except TypeError: made = None
    if ('__new__' in q['offered']) != (made is not None): bad('can be constructed exactly if it has a constructor')
    if made is not None and made.to_bincode() != x.to_bincode(): bad('the constructor is the one given')
    for f in q['helpers']:
        if getattr(x, f)() != 1.5: bad('a function of the class gives what it gives', f)
    if ('walk' in q['offered']) != hasattr(C, 'walk'): bad('walking is possible exactly if asked for')
    d = json.loads(x.to_json())
    if q['system']:
        d['t_report'], d['solver_type'] = [1.0, 2.0, 3.0], {'EulerFixed': {'dt': 1.0}}
        for k, (f, key) in enumerate(q['order']): d[f]['state'][key] = 10.0 * (k + 1)
    d.update(q['values'])
    x = C.from_json(json.dumps(d))
    def values():
        now = json.loads(x.to_json())
        for f in q['shown']:
            if plain(getattr(x, f)) != now[f]: bad('a readable field is the field of its name', f, plain(getattr(x, f)), now[f])
        for f in q['hidden']:
            if hasattr(x, f): bad('a field that is skipped is not readable', f)
        return now
    if values() != d: bad('an object loaded shows what was loaded')
    for y in (copy.copy(x), copy.deepcopy(x), x.clone(), C.from_yaml(x.to_yaml()), C.from_bincode(x.to_bincode())):
        if type(y) is not C or y.to_bincode() != x.to_bincode(): bad('a copy is equal')
    if 'walk' in q['offered']:
        before = x.clone().to_json()
        x.walk()
        d = values()
        if [d[f]['state'][key] for f, key in q['order']] != q['after']: bad('the walk computes the states', [d[f]['state'] for f, _ in q['order']], q['after'])
        if d['state'] != {'i': 3, 'time': 3.0} or d['history'] != {'i': [1, 2, 3], 'time': [1.0, 2.0, 3.0]}: bad('the walk records its rows', d['state'], d['history'])
        for f in q['values']:
            if d[f] != json.loads(before)[f]: bad('plain fields are untouched', f)
for q in json.load(open(sys.argv[2])):
    print('RUN %d' % q['id'])
    try: program(q)
    except BaseException as e: print('BAD %d %s: %s' % (q['id'], type(e).__name__, ' '.join(str(e).split())[:300]))
print('END')
'''
VALUES = {'f64': 2.5, 'String': 'x"y', 'Vec<f64>': [1.0, 2.0], 'bool': True, 'Option<f64>': .5, 'u32': 7, '[f64; 3]': [1.0, 2.0, 3.0], '(f64, u32)': [1.0, 2]}
def varied(sel, fit, n):
    """n of the programs, those first that show what none before them does"""
    def features(k):
        p, v = sel[k]['prog'], sel[k]['verdict']
        fs = {('shown' if f['name'] in v['shown'] else 'hidden', f['name']) for f in p['fields']} | {(f['role'], f['ty'], p['system']) for f in p['fields']} | {('offered', x) for x in v['offered']}
        return fs | {('record', f['name']) for f in p['record']} | {('record', f['ty']) for f in p['record']}
    F = {k: features(k) for k in fit}
    seen, out, left = set(), [], list(fit)
    while left and len(out) < n:
        k = max(left, key=lambda k: (len(F[k] - seen), -k))
        out.append(k); left.remove(k); seen |= F[k]
    return out
def in_python(chk, crate, sel, ids):
    """accepted programs as classes of a Python module, looked at from there"""
    raw = lambda n: n.replace('r#', '')
    qs = []
    for k in ids:
        p, v = sel[k]['prog'], sel[k]['verdict']
        types = {f['name']: f['ty'] for f in p['fields']}
        qs.append({'id': k, 'cls': 'C%d' % k, 'system': p['system'], 'shown': [raw(n) for n in v['shown']], 'hidden': [raw(f['name']) for f in p['fields'] if f['name'] not in v['shown']],
                   'offered': v['offered'], 'helpers': [n for n in v['offered'] if n not in ('walk', '__new__')], 'after': v['after'],
                   'order': [[raw(n), 'level' if types[n] == 'Tank' else 'temp'] for n in v['order']],
                   'values': {raw(f['name']): VALUES[f['ty']] for f in p['fields'] if f['role'] == 'plain' and f['ty'] in VALUES}})
    with open(os.path.join(crate.d, 'src', 'lib.rs'), 'w') as f:
        f.write('#![allow(unused, dead_code)]\n#[path = "own_types.rs"] mod own;\nuse pyo3::prelude::*;\n' + ''.join('mod p%d;\n' % k for k in ids) +
                '#[pymodule]\nfn vmacros(py: Python, m: &PyModule) -> PyResult<()> {\n' + ''.join('    m.add("C%d", py.get_type::<p%d::Sys>())?;\n' % (k, k) for k in ids) + '    Ok(())\n}\n')
    rc, bad, lost, err = crate.cargo('build', ['--lib'])
    if rc:
        for k in bad: chk.violation('C23: an accepted program does not build with the Python feature: %s' % bad[k], {'program': sel[k]['prog']})
        if not bad: raise ToolError('the Python module of accepted programs does not build: ' + '; '.join(lost)[:1500] + err[-500:])
        return
    d = workdir('macropy')
    shutil.copy(os.path.join(BUILD, 'm', 'debug', 'libvmacros.so'), os.path.join(d, 'vmacros.so'))
    for n, t in (('t.py', PYTEST), ('q.json', json.dumps(qs))):
        with open(os.path.join(d, n), 'w') as f: f.write(t)
    q = subprocess.run([sys.executable, os.path.join(d, 't.py'), d, os.path.join(d, 'q.json')], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=300)
    cur = None
    for l in q.stdout.splitlines():
        if l.startswith('RUN '): cur = int(l[4:]); chk.add('programs_in_python', 1)
        if l.startswith('BAD '): chk.violation('C23: an accepted program is not in Python what it should be: %s' % l.split(' ', 2)[2], {'program': sel[cur]['prog'], 'source': crate.src[cur]})
    if 'END' not in q.stdout.splitlines()[-1:]:
        chk.violation('C23: an accepted program stops in Python: %s' % '; '.join(q.stdout.splitlines()[-3:])[:400], {'program': sel[cur]['prog'] if cur is not None else None})
    shutil.rmtree(d, ignore_errors=True)
class Crate:
    """programs spread over a few executables of one crate"""
    def __init__(self, d, sources, py):
        self.d, self.src, self.py, self.n = d, sources, py, JOBS
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(os.path.join(d, 'src', 'bin'))
        def put(name, text):
            with open(os.path.join(d, name), 'w') as f: f.write(text)
        put('Cargo.toml', CARGO)
        shutil.copy(os.path.join(VERIF, 'harness', 'macros.lock'), os.path.join(d, 'Cargo.lock'))
        put('src/lib.rs', '')
        put('src/own_types.rs', OWN.replace('#![allow(unused, dead_code)]\n', ''))
        for k, s in sources.items(): put('src/p%d.rs' % k, s)
    def lay(self, ids):
        ids = sorted(ids)
        for b in range(self.n):
            mine = ids[b::self.n]
            with open(os.path.join(self.d, 'src', 'bin', 'b%d.rs' % b), 'w') as f:
                f.write('#![allow(unused, dead_code)]\n#[path = "../own_types.rs"] mod own;\n' + ''.join('#[path = "../p%d.rs"] mod p%d;\n' % (k, k) for k in mine) +
                        'fn main() {\n' + ''.join('    println!("RUN %d"); p%d::run();\n' % (k, k) for k in mine) + '    println!("END");\n}\n')
    def cargo(self, cmd, what=['--bins']):
        # programs with the Python interface need not be linked: they are only checked
        p = subprocess.run(['cargo', cmd, '--offline', '--quiet', '--keep-going', '--message-format=json', *what, '--manifest-path', os.path.join(self.d, 'Cargo.toml')] + (['--features', 'pyo3'] if self.py else []),
                           env=env(CARGO_TARGET_DIR=os.path.join(BUILD, 'm' if self.py else 'h')), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
        bad, lost = {}, []
        for l in p.stdout.splitlines():
            try: m = json.loads(l)
            except ValueError: continue
            m = m.get('message')
            if not isinstance(m, dict) or m.get('level') != 'error': continue
            ids = set()
            def spans(sp):
                for x in sp:
                    g = re.search(r'(?:^|/)p(\d+)\.rs$', x['file_name'])
                    if g: ids.add(int(g.group(1)))
                    if x.get('expansion'): spans([x['expansion']['span']])
            spans(m['spans'])
            for c in m.get('children', []): spans(c['spans'])
            for i in ids: bad.setdefault(i, m['message'])
            if not ids and 'aborting due to' not in m['message']: lost.append(m['message'])
        return p.returncode, bad, lost, p.stderr
def verdicts(crate):
    """programs the compiler refuses, with its first words; the others compile together"""
    refused, left = {}, set(crate.src)
    while left:
        crate.lay(left)
        rc, bad, lost, err = crate.cargo('check')
        if rc == 0: return refused, left
        bad = {k: v for k, v in bad.items() if k in left}
        if not bad: raise Unbuildable('\n'.join(lost)[-2000:] or err[-2000:])
        refused.update(bad)
        left -= set(bad)
    return refused, left

def interesting(p):
    return (len(p['fields']), len(p['items']), len(p['pyItems']), p['walk'], len(p['record']))
def check(chk, binary, n, npy):
    trs = behaviours(chk, 'macrosRuns', 'macros.qnt', 60 if not THOROUGH else 400, 24, SEED)
    seen = {}
    for t in trs:
        for st in t: seen.setdefault(json.dumps(st['prog'], sort_keys=True), st)
    r = random.Random('%d/macros/%s' % (SEED, TIER))
    progs = [seen[x] for x in sorted(seen)]
    r.shuffle(progs)
    # few reasons for refusal at a time are the most telling
    turn, by = {}, lambda s: json.dumps([sorted(s['verdict']['reasons']), sorted({x['kind'] + x['name'] for x in s['prog']['items'] if x['kind'] != 'fn' or x['name'] != 'update_derivs'} if len(s['verdict']['reasons']) == 1 else set()),
                                         sorted({x['name'] for x in s['prog']['pyItems'] if x['name'] in ('default', 'default_py')})])
    no = []
    for s in progs:
        if s['verdict']['accepted']: continue
        k = by(s)
        turn[k] = turn.get(k, 0) + 1
        no.append(((turn[k] - 1) + 2 * (len(s['verdict']['reasons']) - 1), len(no), s))
    no = [s for _, _, s in sorted(no, key=lambda x: x[:2])]
    yes = [s for s in progs if s['verdict']['accepted']]
    for py, m in ((False, n), (True, npy)):
        t0 = time.time()
        pool_no = no if not py else sorted(no, key=lambda s: not (s['prog']['py'] and s['verdict']['reasons'] != ['nothing to save']))
        pool_yes = yes if not py else sorted(yes, key=lambda s: not s['prog']['py'])
        sel = pool_yes[:m * 3 // 5] + pool_no[:m * 2 // 5]
        src = {k: module(k, s['prog'], s['verdict'], r) for k, s in enumerate(sel)}
        c = Crate(os.path.join(workdir('macros'), 'py' if py else 'rs'), src, py)
        word = 'with' if py else 'without'
        try: refused, ok = verdicts(c)
        except Unbuildable as e:
            chk.violation('C23: nothing compiles %s the Python feature: %s' % (word, str(e)[-500:]), {'build': str(e)})
            continue
        for k, s in enumerate(sel):
            want = s['verdict']['accepted']
            for why in s['verdict']['reasons']: chk.add('refused_for_' + why.replace(' ', '_'), 1)
            if (k in ok) == want: continue
            chk.violation('C23: %s the Python feature a program is %s but should be %s (%s)' % (word, 'accepted' if k in ok else 'refused (%s)' % refused[k][:200], 'accepted' if want else 'refused',
                          '; '.join(s['verdict']['reasons'])), {'program': s['prog'], 'source': src[k], 'python': py})
        chk.phase('compiler', t0)
        chk.traces += len(sel)
        chk.add('programs_accepted', len(ok)); chk.add('programs_refused', len(refused))
        if not py:
            t0 = time.time()
            c.lay(k for k in ok if sel[k]['verdict']['accepted'])
            rc, bad, lost, err = c.cargo('build')
            if rc:
                for k in bad: chk.violation('C23: an accepted program does not build: %s' % bad[k], {'program': sel[k]['prog'], 'source': src[k]})
                if not bad: raise ToolError('accepted programs do not link: ' + err[-1500:])
            else:
                for b in range(c.n):
                    q = subprocess.run([os.path.join(BUILD, 'h', 'debug', 'b%d' % b)], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=300)
                    cur, told = None, set()
                    for l in q.stdout.splitlines():
                        if l.startswith('RUN '): cur = int(l[4:]); chk.add('programs_run', 1)
                        if l.startswith('BAD ') and cur not in told:
                            told.add(cur)
                            chk.violation('C23: an accepted program does not work: %s' % l.split(' ', 2)[2], {'program': sel[cur]['prog'], 'source': src[cur]})
                    if 'END' not in q.stdout.splitlines()[-1:]:
                        chk.violation('C23: an accepted program stops: %s' % '; '.join(q.stdout.splitlines()[-3:])[:400], {'program': sel[cur]['prog'] if cur is not None else None, 'source': src.get(cur)})
            chk.phase('programs', t0)
        else:
            t0 = time.time()
            fit = [k for k in sorted(ok) if sel[k]['verdict']['accepted'] and sel[k]['prog']['py']]
            in_python(chk, c, sel, varied(sel, fit, 28 if not THOROUGH else 160))
            chk.phase('python', t0)
        chk.sample({'program': sel[0]['prog'], 'verdict': sel[0]['verdict'], 'python': py})
        shutil.rmtree(c.d, ignore_errors=True)
