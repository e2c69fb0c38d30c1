"""What the driver knows about the harness's system types: tracked states in declaration order, flows with their orientation,
histories, and where values sit in a dump."""
from common import hx, unhx, hbits

VAL = {'Mass': ('state', 'v'), 'ThermalMass': ('state', 'temp'), 'ThermalReservoir': ('state', 'temp'), 'Wrapped': ('core', 'state', 'v')}
DER = {'Mass': ('state', 'dv'), 'ThermalMass': ('state', 'dtemp'), 'ThermalReservoir': ('state', 'dtemp'), 'Wrapped': ('core', 'state', 'dv')}
HIST = {'Mass': ('history',), 'ThermalMass': ('history',), 'ThermalReservoir': ('history',), 'Wrapped': ('core', 'history')}
HV = {'Mass': 'v', 'ThermalMass': 'temp', 'ThermalReservoir': 'temp', 'Wrapped': 'v'}
HD = {'Mass': 'dv', 'ThermalMass': 'dtemp', 'ThermalReservoir': 'dtemp', 'Wrapped': 'dv'}
CAP = {'Mass': ('c',), 'ThermalMass': ('c',), 'Wrapped': ('core', 'c')}

# states: (field, kind); links: (field, kind, a, b); tracked: further histories that save_state must extend; loose: histories it must not
TYPES = {
    'P1': dict(states=[('a', 'Mass')], links=[], rhs=True, forced=False),
    'P2': dict(states=[('x', 'ThermalMass'), ('v', 'Mass')], links=[], rhs=True, forced=True),
    'P3': dict(states=[('b', 'Mass'), ('a', 'ThermalMass'), ('c', 'Wrapped')], links=[], rhs=True, forced=True,
               tracked=[('rec', 'history'), ('rec', 'inner', 'history'), ('rec', 'second', 'history'), ('probe', 'history'), ('c', 'probe', 'history')],
               loose=[('rec', 'loose', 'history'), ('spare', 'history')]),
    'P6': dict(states=[('f', 'Mass'), ('e', 'ThermalMass'), ('d', 'Mass'), ('c', 'Mass'), ('b', 'ThermalMass'), ('a', 'Mass')], links=[], rhs=True, forced=False, tracked=[('histories', 'history')]),
    'P13': dict(states=[('s07', 'Mass'), ('s12', 'ThermalMass'), ('s01', 'ThermalMass'), ('s13', 'Mass'), ('s05', 'ThermalMass'), ('s10', 'Mass'), ('s02', 'Mass'), ('s09', 'ThermalMass'), ('s04', 'Mass'), ('s11', 'ThermalMass'), ('s03', 'ThermalMass'), ('s08', 'Mass'), ('s06', 'ThermalMass')], links=[], rhs=True, forced=False),
    'Ring4': dict(states=[('m3', 'ThermalMass'), ('m1', 'Mass'), ('m4', 'Mass'), ('m2', 'ThermalMass')],
                  links=[('l12', 'Conductance', 'm1', 'm2'), ('l32', 'Conductance', 'm3', 'm2'), ('l34', 'Link', 'm3', 'm4'), ('l14', 'Link', 'm1', 'm4')]),
    'Star': dict(states=[('r1', 'ThermalReservoir'), ('hub', 'ThermalMass'), ('m2', 'Mass'), ('r4', 'ThermalReservoir'), ('m3', 'ThermalMass')],
                 links=[('k1', 'Conductance', 'r1', 'hub'), ('k2', 'Conductance', 'hub', 'm2'), ('k3', 'Link', 'm3', 'hub'), ('k4', 'Conductance', 'hub', 'r4')],
                 rhs=True, forced=True),
    'Par2': dict(states=[('m1', 'ThermalMass'), ('m2', 'Mass')],
                 links=[('p', 'Conductance', 'm1', 'm2'), ('q', 'Conductance', 'm2', 'm1'), ('r', 'Link', 'm1', 'm2')]),
    'Duct': dict(states=[('lo', 'ThermalReservoir'), ('m', 'ThermalMass'), ('hi', 'ThermalReservoir')],
                 links=[('a', 'Conductance', 'lo', 'm'), ('b', 'Conductance', 'm', 'hi')]),
    'Chain': dict(states=[('top', 'Wrapped'), ('idle', 'ThermalMass'), ('mid', 'Mass'), ('low', 'ThermalMass')],
                  links=[('t', 'Link', 'top', 'mid'), ('l', 'Link', 'mid', 'low')], tracked=[('unused', 'history'), ('top', 'probe', 'history')]),
    'System3TM': dict(states=[('m1', 'ThermalMass'), ('m2', 'ThermalMass'), ('m3', 'ThermalMass')],
                      links=[('h12', 'Conductance', 'm1', 'm2'), ('h23', 'Conductance', 'm2', 'm3')], log=False),
    'System3TMWithBC': dict(states=[('m1', 'ThermalReservoir'), ('m2', 'ThermalMass'), ('m3', 'ThermalMass')],
                            links=[('h12', 'Conductance', 'm1', 'm2'), ('h23', 'Conductance', 'm2', 'm3')], log=False, sine=True),
}
for t in TYPES.values():
    t.setdefault('tracked', []); t.setdefault('loose', []); t.setdefault('rhs', False); t.setdefault('forced', False)
    t.setdefault('log', True); t.setdefault('sine', False)

METHODS = ['euler', 'heun', 'midpoint', 'ralston', 'rk4', 'bs', 'ck']
ORDER = dict(euler=1, heun=2, midpoint=2, ralston=2, rk4=4, bs=3, ck=5)

def at(d, path):
    for p in path: d = d[p]
    return d
def put(d, path, v):
    for p in path[:-1]: d = d.setdefault(p, {})
    d[path[-1]] = v

def fixed(m, dt):
    return {'m': m, 'dt': hx(dt)}
def adaptive(m, dt, dt_max, max_iter, rtol, atol, save=False, save_states=False):
    return {'m': m, 'sc': {'dt_max': hx(dt_max), 'max_iter': max_iter, 'atol': hx(atol), 'rtol': hx(rtol), 'save': save, 'save_states': save_states,
                           'state': {'dt': hx(dt)}}}

def build(ty, y, solver, sched, t0=0.0, i0=0, caps=None, conds=None, rhs=None, forced=None, extra=None):
    """the scenario's initial object, as the harness loads it"""
    T = TYPES[ty]
    v = {'solver_type': solver, 't_report': [hx(x) for x in sched], 'state': {'i': i0, 'time': hx(t0)}}
    for k, (f, kind) in enumerate(T['states']):
        put(v, (f,) + VAL[kind], hx(y[k]))
        if kind in CAP: put(v, (f,) + CAP[kind], hx(caps[k] if caps else 1.0))
    for k, (f, kind, a, b) in enumerate(T['links']):
        put(v, (f, 'h'), hx(conds[k]))
    if T['rhs']:
        v['rhs'] = {'eqs': [[{'c': hx(c), 'tp': tp, 'ys': list(ys)} for (c, tp, ys) in eq] for eq in (rhs or [[] for _ in y])]}
    if T['forced'] and forced:
        v['forced'] = [{'j': j, 'poly': [hx(c) for c in p]} for (j, p) in forced]
    if ty == 'P3':
        v.update({'label': 'a "quoted" label', 'gain': hx(0.1), 'stages': 3, 'opts': [[1, -2]], 'probe': {'serial': 7, 'state': {'x': hx(1.5), 'on': True}}})
        v['spare'] = {'tag': 'spare', 'c': hx(2.0), 'state': {'n': 5, 'v': hx(-1.25), 'dv': hx(9.0)}, 'history': {'n': [1, 2], 'v': [hx(1), hx(2)], 'dv': [hx(3), hx(4)]}}
        v['rec'] = {'gain': hx(2.5), 'inner': {'serial': 1, 'state': {'x': hx(0.1), 'on': True}}, 'second': {'serial': 2, 'state': {'x': hx(0.2), 'on': False}},
                    'loose': {'serial': 3, 'state': {'x': hx(0.3), 'on': True}, 'history': {'x': [hx(7.0)], 'on': [True]}}, 'state': {'x': hx(4.0), 'on': False}}
        v['c'].update({'id': 11, 'probe': {'serial': 4, 'state': {'x': hx(0.4), 'on': True}}})
        v['b'].update({'tag': 'b', 'limits': [[hx(-1.0), hx(1.0)]]})
    if extra:
        for p, x in extra: put(v, p, x)
    return v

def states(ty, d):  return [at(d, (f,) + VAL[k]) for f, k in TYPES[ty]['states']]
def derivs(ty, d):  return [at(d, (f,) + DER[k]) for f, k in TYPES[ty]['states']]
def flows(ty, d):   return [d[f]['state']['q'] for f, _, _, _ in TYPES[ty]['links']]
def hist_paths(ty):
    T = TYPES[ty]
    return [('history',)] + [(f,) + HIST[k] for f, k in T['states']] + [(f, 'history') for f, _, _, _ in T['links']] + [tuple(p) for p in T['tracked']]
def hist_len(h):
    """lengths of all columns of a history"""
    return {len(c) for c in h.values()}
def rows(ty, d):
    """(i, t, y, k, q) per row, as dumped; rows beyond the shortest history are dropped"""
    T = TYPES[ty]
    n = min(min(hist_len(at(d, p))) for p in hist_paths(ty))
    out = []
    for r in range(n):
        y = [at(d, (f,) + HIST[k])[HV[k]][r] for f, k in T['states']]
        dk = [at(d, (f,) + HIST[k])[HD[k]][r] for f, k in T['states']]
        q = [d[f]['history']['q'][r] for f, _, _, _ in T['links']]
        out.append((d['history']['i'][r], d['history']['time'][r], y, dk, q))
    return out
def lens_equal(ty, d):
    s = set()
    for p in hist_paths(ty): s |= hist_len(at(d, p))
    return len(s) == 1
def conf(d):
    return d['solver_type'].get('sc')

def flatten(d, pre=()):
    if isinstance(d, dict):
        out = {}
        for k, v in d.items(): out.update(flatten(v, pre + (k,)))
        return out
    return {pre: d}

def changed_mask(ty, a, b):
    """which fields of object `a` are different in `b`: 1 parameters and other user fields, 2 schedule, 4 solver settings,
    8 earlier rows of a history, 16 histories that are neither tracked nor recorded, 32 adaptive diagnostics, 64 solver record"""
    T = TYPES[ty]
    hp = hist_paths(ty)
    allowed = {('state', 'i'), ('state', 'time')}
    for f, k in T['states']:
        allowed |= {(f,) + VAL[k], (f,) + DER[k]}
    for f, k, _, _ in T['links']:
        allowed |= {(f, 'state', 'q'), (f, 'state', 'gap')}
    fa, fb = flatten(a), flatten(b)
    mask = 0
    for p in set(fa) | set(fb):
        x, y = fa.get(p), fb.get(p)
        if x == y or p in allowed: continue
        if p[:-1] in hp:
            if not (isinstance(x, list) and isinstance(y, list) and y[:len(x)] == x): mask |= 8
        elif p[:-1] in [tuple(q) for q in T['loose']]: mask |= 16
        elif p[0] == 't_report': mask |= 2
        elif p[:3] == ('solver_type', 'sc', 'state'): mask |= 32
        elif p[:3] == ('solver_type', 'sc', 'history'):
            mask |= 64
            if not (isinstance(x, list) and isinstance(y, list) and y[:len(x)] == x): mask |= 4
        elif p[0] == 'solver_type': mask |= 4
        else: mask |= 1
    return mask
