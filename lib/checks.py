"""One function per property: what is explored, generated, run and compared."""
import copy, random
from common import *
from model import *
from walks import *
import mbt_walk, mbt_system, mbt_history, mbt_store, mbt_macros, mbt_python, mbt_bulk, util_check

AD = ['bs', 'ck']

def known(chk, key, shows):
    """a listed finding that the code still shows"""
    for l in open(os.path.join(VERIF, 'known_findings.txt')):
        m = re.match(r'known: property=(\w+) id=(\S+) (.*)', l)
        if m and m.group(1) == chk.pid and m.group(2) == key:
            if shows: chk.known.append(m.group(3).strip())
            else: chk.notes.append('listed finding %s no longer shows' % key)
            return
    if shows: chk.violation('%s: finding %s is not listed' % (chk.pid, key), {'finding': key})

def rng(salt): return random.Random('%d/%s/%s' % (SEED, salt, TIER))
def size(n, factor=8): return n * factor if THOROUGH else n

def rnd_direct(r, m, types=None, prob=None, n=None, flags=0, mode=None):
    """steps called one by one"""
    p = prob or rnd_problem(r, types=types)
    i0 = r.randint(1, 4) if r.random() < .3 else 0
    s = scenario(r, m, prob=dict(p, i0=i0), sched=sorted(p['t0'] - r.random() for _ in range(i0)) + [p['t0'] + 1000. * max(1., p['span'])], flags=flags, mode=mode)
    s.steps = [p['span'] * r.choice([.1, .3, .05, 1, .02, r.random()]) for _ in range(n or r.randint(1, 4))]
    s.steps = s.steps[:max(1, bounded(p, s.steps))]
    return s
def rnd_zero(r, m):
    p, h = zero_increment(r, m)
    sol = adaptive(m, r.choice([h, h, 2 * h]), 10., r.choice([1, 2, 3, 5, 255]), r.choice([1e-3, 1e-6]), r.choice([1e-9, 1e-2, .1, 1., 1e-5]), r.random() < .5, True)
    s = scenario(r, m, prob=p, sched=[100.], solver=sol)
    s.steps = [h] + [h / 2] * r.randint(0, 1)
    return s

def over(r, m):
    """a walk that has nothing to do"""
    p = rnd_problem(r)
    sched = sorted(p['t0'] - r.random() * r.choice([0, 1]) for _ in range(r.randint(1, 3)))
    return scenario(r, m, prob=dict(p, i0=r.randint(0, len(sched))), sched=sched, twin=False, rerun=False)

def step_check(chk, b, methods, walks=64, direct=110):
    """C03..C06: one step and compositions of steps against the tableau evaluated exactly"""
    r = rng(chk.pid)
    ms = methods
    w = [scenario(r, ms[k % len(ms)], twin=False, rerun=False) for k in range(size(walks))]
    d = [rnd_direct(r, ms[k % len(ms)]) for k in range(size(direct))]
    # many coupled states, late stages, strong dependence on time
    d += [rnd_direct(r, ms[k % len(ms)], types=['P6', 'Star', 'P13', 'P3']) for k in range(size(40))]
    for m, z in [(m, z) for m in ms for z in coincidences(m) + [None] * size(6)]:
        p, h = coincide(r, m, z)
        s = rnd_direct(r, m, prob=p)
        if ms[0] in AD: s.obj['solver_type']['sc'].update(dt_max=hx(1e3), state={'dt': hx(h)}, rtol=hx(10.0))
        s.steps = [h] * r.randint(1, 2)
        d.append(s)
    if ms[0] in AD: d += [rnd_zero(r, ms[k % len(ms)]) for k in range(size(16))]
    run_walks(chk, b, w, chk.pid, direct=d)

def c01(chk, b):
    r = rng('c01')
    model_check(chk, 'walk', 'walkAll', 'walk.qnt', 'inv', 'init2', 'step2')
    mbt_walk.check(chk, b, size(160), 40, {'C01'})
    w = [scenario(r, METHODS[k % 7], twin=False, rerun=False) for k in range(size(140))]
    # schedules longer than any small counter
    for m, ty in (('euler', 'P1'), ('rk4', 'P2'), ('ck', 'P1')):
        n = 1100 if m == 'euler' else 280
        p = sysprob(ty, pad(r, ty, [[(1.0, 1, []), (-1.0, 0, [0])]]), [1.0] * len(TYPES[ty]['states']), 0.0, 1.0)
        sol = fixed(m, 1.0) if m not in AD else adaptive(m, .1, 10., 5, 1e-2, 1e-4, False)
        w.append(scenario(r, m, prob=p, sched=[(k + 1) / 271.3 for k in range(n)], solver=sol, twin=False, rerun=False))
    w += [slivers(r, METHODS[k % 7]) for k in range(size(21))]
    w += [over(r, METHODS[k % 7]) for k in range(size(14))]
    # intervals of tens of thousands of steps, and thousands of rows
    w += [far(r, m, 70000 if m in ('euler', 'rk4', 'ck') else 12000, r.choice([1, 3])) for m in METHODS]
    w += [far(r, m, 6000, 5000) for m in ('euler', 'bs')]
    run_walks(chk, b, w, 'C01')
def c02(chk, b):
    r = rng('c02')
    model_check(chk, 'walk', 'walkAll', 'walk.qnt', 'inv', 'init2', 'step2')
    mbt_walk.check(chk, b, size(120), 40, {'C02'})
    types = [t for t in TYPES if TYPES[t]['log']]
    w = [scenario(r, METHODS[k % 7], types=types, twin=False, rerun=False) for k in range(size(112))]
    w += [scenario(r, AD[k % 2], types=types, mode='cap', save=True, twin=False, rerun=False) for k in range(size(24))]
    w += [slivers(r, METHODS[k % 7]) for k in range(size(28))]
    w += [far(r, m, 12000 if m in ('euler', 'rk4', 'ck') else 70000, r.choice([1, 3])) for m in METHODS]
    d = [rnd_direct(r, AD[k % 2]) for k in range(size(50))]
    run_walks(chk, b, w, 'C02', direct=d)
def c03(chk, b): step_check(chk, b, ['euler', 'heun', 'midpoint', 'ralston'], 80, 120)
def c04(chk, b): step_check(chk, b, ['rk4'])
def c05(chk, b): step_check(chk, b, ['bs'])
def c06(chk, b): step_check(chk, b, ['ck'])
def attempts_machine(chk):
    model_check(chk, 'adaptive', 'adaptiveDeep' if THOROUGH else 'adaptiveTiny', 'adaptive.qnt', 'inv', timeout=850)
def control_check(chk, b):
    r = rng(chk.pid)
    attempts_machine(chk)
    modes = ['normal', 'abs', 'exhaust', 'cap', 'tight', 'mixed']
    w = [scenario(r, AD[k % 2], mode=modes[k // 2 % 6], save=True, twin=False, rerun=False) for k in range(size(72))]
    w += [scenario(r, AD[k % 2], mode=modes[k // 2 % 6], save=False, twin=False, rerun=False) for k in range(size(12))]
    d = [rnd_direct(r, AD[k % 2], mode=modes[k // 2 % 6]) for k in range(size(90))]
    d += [rnd_zero(r, AD[k % 2]) for k in range(size(60))]
    # nothing happens at all: zero error
    for k in range(size(8)):
        s = scenario(r, AD[k % 2], prob=at_rest(r), flags=F_REST, save=True, twin=False, rerun=False)
        w.append(s)
        d.append(rnd_direct(r, AD[k % 2], prob=at_rest(r), flags=F_REST))
    # constant rates: error estimates at or next to zero, with no absolute tolerance to fall back on
    for k in range(size(14)):
        ty = r.choice(['P1', 'P2', 'P3'])
        n = len(TYPES[ty]['states'])
        p = sysprob(ty, [[(r.choice([1.0, 24.0, 0.5, -3.0, 0.0 if j else 2.0, r.uniform(-2, 2)]), 0, [])] for j in range(n)], [r.choice([0.0, 1.0, r.uniform(-2, 2)]) for _ in range(n)])
        sol = adaptive(AD[k % 2], r.choice([1.0, .5, .1, r.random()]), 10., r.choice([1, 2, 5, 40]), r.choice([1e-5, 1e-3]), 0.0, True, True)
        s = scenario(r, AD[k % 2], prob=p, solver=sol, sched=[1000.])
        s.steps = [r.choice([1.0, .25, r.random()]) for _ in range(r.randint(1, 3))]
        d.append(s)
    # tolerances that cannot be met: attempts run out late
    for k in range(size(12)):
        s = rnd_direct(r, AD[k % 2], n=1 if k % 3 else 3)
        s.obj['solver_type']['sc'].update(rtol=hx(r.choice([1e-300, -1e-3])), atol=hx(r.choice([1e-300, -1e-3])), max_iter=r.choice([9, 17, 21, 30, 40, 50] if k % 3 else [4, 5, 6, 7]))
        d.append(s)
    # attempts whose estimates are no numbers
    for k in range(size(16)):
        p, sol = wall(r, AD[k % 2])
        if k % 4 < 2: w.append(scenario(r, AD[k % 2], prob=p, solver=sol, twin=False, rerun=False))
        else:
            s = scenario(r, AD[k % 2], prob=p, solver=sol, sched=[p['t0'] + 1000.])
            s.steps = [p['span'] * r.choice([.5, 1])] * r.randint(1, 2)
            d.append(s)
    d += late(r, b, size(48))
    # tolerances met or missed by one unit in the last place
    base = []
    for k in range(size(84)):
        if k // 2 % 6 == 5: s = rnd_zero(r, AD[k % 2])
        else: s = rnd_direct(r, AD[k % 2], mode='tight')
        s.steps = [s.steps[0]]
        s.obj['solver_type']['sc']['max_iter'] = 1
        # ... on the first attempt or a later one
        if k % 2 and k // 2 % 6 != 5: s.obj['solver_type']['sc'].update(rtol=hx(1e-300), atol=hx(1e-300), max_iter=r.choice([2, 3, 4, 5, 6, 7]))
        base.append(s)
    run_walks(chk, b, w, chk.pid, direct=d, groups=edges(b, base))
c07 = c08 = control_check
def c09(chk, b):
    r = rng('c09')
    attempts_machine(chk)
    w = [scenario(r, AD[k % 2], save=(k % 8 not in (3, 6)), twin=True, rerun=False) for k in range(size(120))]
    w += [scenario(r, METHODS[k % 5], twin=False, rerun=False) for k in range(size(10))]
    w += [slivers(r, AD[k % 2]) for k in range(size(10))]
    # records of hundreds of steps
    for k, n in enumerate([270, 520, 1040]): w.append(long_record(r, AD[k % 2], n))
    w += [far(r, m, n, 60, True) for m, n in zip(AD, (9000, 5000))]
    d = [rnd_direct(r, AD[k % 2]) for k in range(size(40))]
    d += [same_start(r, AD[k % 2]) for k in range(size(16))]
    run_walks(chk, b, w, 'C09', direct=d)
def c10(chk, b):
    r = rng('c10')
    w = [scenario(r, METHODS[k % 7], twin=False, rerun=False) for k in range(size(84))]
    w += [scenario(r, METHODS[k % 7], types=['Ring4', 'Star', 'Par2', 'Duct', 'Chain', 'System3TM', 'System3TMWithBC'], twin=False, rerun=False) for k in range(size(84))]
    w += [slivers(r, METHODS[k % 7]) for k in range(size(21))]
    d = [rnd_direct(r, METHODS[k % 7]) for k in range(size(84))]
    # steps over which the states return to where they were, while time goes on
    for m in METHODS:
        for z in ['sum', 'sum', None]:
            p, h = coincide(r, m, z)
            s = rnd_direct(r, m, prob=p)
            if m in AD: s.obj['solver_type']['sc'].update(dt_max=hx(1e3), state={'dt': hx(h)}, rtol=hx(10.0))
            s.steps = [h] * r.randint(1, 2)
            d.append(s)
    run_walks(chk, b, w, 'C10', direct=d)
    # report times at or before the start: rows are written before anything was evaluated
    f = [scenario(r, METHODS[k], prob=sysprob('P2', [[(1.0, 0, [])], [(-1.0, 0, [1])]], [1.0, 1.0]), sched=[0.0, 1.0], flags=F_FIRST, twin=False, rerun=False) for k in range(7)]
    bad = run_walks(chk, b, f, 'C10first', tags={'none'})
    known(chk, 'first-row', any(x['tag'] == 'C10' for x in bad))
def c11(chk, b):
    r = rng('c11')
    w = [scenario(r, METHODS[k % 7], twin=False, rerun=False) for k in range(size(84))]
    w += [scenario(r, METHODS[k % 7], types=['P3', 'Chain', 'Star', 'P3'], twin=False, rerun=False) for k in range(size(84))]
    d = [rnd_direct(r, METHODS[k % 7], types=['P3', 'Star', 'Chain', 'P3', 'Ring4', 'P6', 'P13', 'System3TM', 'Duct']) for k in range(size(112))]
    # settings at the ends of their ranges
    for k in range(size(28)):
        s = rnd_direct(r, AD[k % 2], n=r.randint(1, 2))
        s.obj['solver_type']['sc'].update(rtol=hx(r.choice([0., 5e-324, 1e-300, 1e300, 1e-16, -1e-3, float('inf')])), atol=hx(r.choice([0., 5e-324, 1e300, 1e-16, -1e-6, float('inf')])),
                                          max_iter=r.choice([0, 1, 2, 7]), dt_max=hx(r.choice([1e-3, 1e300, float('inf')]) if k % 3 else s.steps[0]))
        d.append(s)
    run_walks(chk, b, w, 'C11', direct=d)
def objects(chk, b, salt, n):
    model_check(chk, 'system', 'systemDeep' if THOROUGH else 'systemTiny', 'system.qnt', 'inv', 'init', 'step2', timeout=850)
    mbt_system.check(chk, b, size(n), 40, {chk.pid}, 'systemRuns', salt)
    mbt_system.check(chk, b, size(n // 2), 40, {chk.pid}, 'componentRuns', salt)
def c12(chk, b): objects(chk, b, 100, 110)
def c13(chk, b):
    objects(chk, b, 200, 110)
    mbt_bulk.saves(chk, b, size(20, 4), 4)
def c15(chk, b): objects(chk, b, 300, 130)
def c14(chk, b):
    model_check(chk, 'history', 'historyDeep' if THOROUGH else 'historyTiny', 'history.qnt', 'inv', 'init', 'step2', timeout=850)
    mbt_history.check(chk, b, size(160), 60)
    model_check(chk, 'bulk', 'bulkDeep' if THOROUGH else 'bulkTiny', 'bulk.qnt', 'inv', 'init', 'step2', timeout=850)
    mbt_bulk.records(chk, b, size(28, 4), 12)
def c16(chk, b):
    r = rng('c16')
    nets = ['Ring4', 'Star', 'Par2', 'Duct', 'Chain', 'System3TM', 'System3TMWithBC']
    e = [scenario(r, 'euler', types=nets, sched=[1000.]) for _ in range(size(350))]
    for s in e[::9]:  # flows against the difference
        for f, _, _, _ in TYPES[s.ty]['links']:
            if r.random() < .5: put(s.obj, (f, 'h'), hx(-r.uniform(.1, 1.5)))
    for s in e:  # stale derivatives and flows to be overwritten
        if r.random() < .7:
            for f, k in TYPES[s.ty]['states']: put(s.obj, (f,) + DER[k], hx(r.uniform(-5, 5)))
            for f, _, _, _ in TYPES[s.ty]['links']: put(s.obj, (f, 'state', 'q'), hx(r.uniform(-5, 5)))
    w = [scenario(r, METHODS[k % 7], types=nets, twin=False, rerun=False) for k in range(size(14))]
    run_walks(chk, b, w, 'C16', evals=e)
def c17(chk, b):
    r = rng('c17')
    closed = ['Ring4', 'Par2', 'Chain', 'System3TM']
    w = [scenario(r, METHODS[k % 7], types=closed, twin=False, rerun=False) for k in range(size(105))]
    w += [scenario(r, METHODS[k % 7], prob=at_rest(r), flags=F_REST, twin=False, rerun=False) for k in range(size(70))]
    d = [rnd_direct(r, METHODS[k % 7], types=closed) for k in range(size(42))]
    d += [rnd_direct(r, METHODS[k % 7], prob=at_rest(r), flags=F_REST) for k in range(size(42))]
    run_walks(chk, b, w, 'C17', direct=d)
def forced_problem(r):
    while True:
        p = rnd_problem(r, types=['Star', 'Star', 'P2', 'P3'])
        if p['forced']: return p
def c18(chk, b):
    r = rng('c18')
    w = [scenario(r, METHODS[k % 7], types=['Star', 'Duct', 'System3TMWithBC'], twin=False, rerun=False) for k in range(size(91))]
    w += [scenario(r, METHODS[k % 7], prob=forced_problem, twin=False, rerun=False) for k in range(size(63))]
    w += [scenario(r, METHODS[k % 7], types=['System3TMWithBC'], twin=False, rerun=False) for k in range(size(28))]
    d = [rnd_direct(r, METHODS[k % 7], types=['Star', 'Duct', 'System3TMWithBC']) for k in range(size(42))]
    d += [rnd_direct(r, METHODS[k % 7], prob=forced_problem(r)) for k in range(size(42))]
    run_walks(chk, b, w, 'C18', direct=d)
    mbt_system.check(chk, b, size(40), 40, {'C18'}, 'systemRuns', 400)
    mbt_system.check(chk, b, size(40), 40, {'C18'}, 'componentRuns', 400)
def c19(chk, b):
    mbt_system.check(chk, b, size(60), 40, {'C19'}, 'systemRuns', 500)
    mbt_system.check(chk, b, size(40), 40, {'C19'}, 'componentRuns', 500)
    mbt_history.check(chk, b, size(60), 40, trips=True)
    mbt_bulk.records(chk, b, size(21, 4), 8, trips=True)
    chk.add('values_loaded_one_ulp_off', mbt_store.check(chk, b, size(280), 60, {'C19'}, 700))
    known(chk, 'json-doubles', mbt_store.demonstrate(chk, b))
def c21(chk, b):
    model_check(chk, 'store', 'storeDeep' if THOROUGH else 'storeTiny', 'store.qnt', 'inv', 'init', 'step2', timeout=850)
    mbt_store.paths(chk, b, 'paths5' if THOROUGH else 'paths4', 68000, {'C21'})
    mbt_store.check(chk, b, size(280), 60, {'C21'}, 800)
def c20(chk, b):
    r = rng('c20')
    mbt_walk.check(chk, b, size(160), 40, {'C20'})
    ways = ['again', 'resume', 'hand', 'extend', 'resume']
    w = [scenario(r, METHODS[k % 7], twin=False, rerun=ways[k % 5]) for k in range(size(175))]
    # thousands of steps
    for k, m in enumerate(METHODS):
        for way in ways[:3]:
            n = 2600 if m in AD else 700
            p = sysprob('P2', [[(-1.0, 0, [0]), (r.uniform(.1, .6), 1, [1])], [(r.uniform(-1, -.2), 0, [0, 1]), (.3, 2, [])]], [r.uniform(.5, 1), r.uniform(-1, 1)], 0.0, 2.0)
            sol = adaptive(m, .1, 2.0 / n, 5, 1e-2, 1e-4, False) if m in AD else fixed(m, 2.0 / n)
            w.append(scenario(r, m, prob=p, sched=[.3, .7, 1.1, 2.0], solver=sol, twin=False, rerun=way))
    # ... in many threads at once
    for m in METHODS:
        p = sysprob('P2', [[(-1.0, 0, [0]), (r.uniform(.1, .6), 1, [1])], [(r.uniform(-1, -.2), 0, [0, 1]), (.3, 2, [])]], [r.uniform(.5, 1), r.uniform(-1, 1)], 0.0, 2.0)
        sol = adaptive(m, .1, 2.0 / 900, 5, 1e-2, 1e-4, False) if m in AD else fixed(m, 2.0 / 900)
        s = scenario(r, m, prob=p, sched=[.3, .7, 1.1, 2.0], solver=sol, twin=False, rerun='beside')
        s.others = []
        for k in range(6):
            o = copy.deepcopy(s)
            for f, kd in TYPES[s.ty]['states']: put(o.obj, (f,) + VAL[kd], hx(unhx(at(s.obj, (f,) + VAL[kd])) * (1 + 1e-2 * r.random())))
            s.others.append(o)
        w.append(s)
    # other systems of the same and other types at work in the same process, in turn or in other threads
    for k in range(size(84)):
        m = METHODS[k % 7]
        s = scenario(r, m, twin=False, rerun=['among', 'beside'][k // 7 % 2])
        s.others = [scenario(r, r.choice(METHODS), twin=False, rerun=False) for _ in range(r.randint(1, 3))]
        s.others.append(scenario(r, m, types=[s.ty], twin=False, rerun=False))
        # ... one of them the same system from slightly other states, over the same schedule with the same settings
        o = copy.deepcopy(s)
        for f, kd in TYPES[s.ty]['states']: put(o.obj, (f,) + VAL[kd], hx(unhx(at(s.obj, (f,) + VAL[kd])) * (1 + 1e-4 * r.random())))
        s.others.append(o)
        w.append(s)
    run_walks(chk, b, w, 'C20')
def c24(chk, b):
    r = rng('c24')
    rc, out = quint(['test', 'tableau.qnt'])
    if rc: raise ToolError('order conditions: ' + out[-1500:])
    chk.notes.append('quint test tableau.qnt: the tableaus satisfy the order conditions exactly')
    g = []
    for _ in range(size(2, 6)):
        g += [convergence(r, m, ref, k) for m in METHODS for ref in REFS for k in conv_steps(m, ref)]
    w = [scenario(r, METHODS[k % 7], prob=polynomial(r, METHODS[k % 7]), flags=F_EXACT, twin=False, rerun=False) for k in range(size(84))]
    run_walks(chk, b, w, 'C24', groups=g)

def c22(chk, b):
    model_check(chk, 'pyapi', 'pyTiny', 'pyapi.qnt', 'inv', 'init', 'step2', timeout=850)
    mbt_python.check(chk, b, size(96), 26)
def c23(chk, b):
    model_check(chk, 'macros', 'macrosDeep' if THOROUGH else 'macrosTiny', 'macros.qnt', 'inv', 'init', 'step2', timeout=850)
    mbt_macros.check(chk, b, size(320, 4), size(110, 4))
def c25(chk, b):
    rc, out = quint(['test', '--main', 'util', 'util.qnt'])
    if rc: raise ToolError('util.qnt: ' + out[-1500:])
    util_check.check(chk, b, size(450))
    known(chk, 'linspace-overflow', util_check.demonstrate(chk, b))

CHECKS = {k.upper(): v for k, v in list(globals().items()) if re.fullmatch(r'c\d\d', k)}
