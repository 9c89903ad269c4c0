"""C12: a discrete model follows its plant: any inputs, sampling intervals, losses, delays and restarts."""
import warnings
import numpy as np

from sim.core import Violation
from sim.ref import expm_taylor
from sim.seams import SEAM, SimStop, Injected, place_fault
from sim.world import rnd
from sim.hybrid import domains, spec_pwa

ID = 'C12'
RUNS = {'quick': 16000, 'thorough': 80000}
TIME_UNIT = 'sampling instants'
RULE = ('A run is a plant (continuous-time affine, or discrete-time affine, linear or piecewise affine) driven over a lossy network for 4-16 sampling '
        'instants with jittering sampling clock, lost commands (the actuator holds), lost and late measurements, node restarts and failing backends; a node '
        'holding only old measurements predicts the present with the library\'s models (numeric or symbolic constructors, step by step, condensed, closed loop, '
        'multi-rate) and is compared with the plant integrated by the reference. Non-trivial: a prediction over two or more intervals was compared.')
REAL = ['pympc.dynamics (constructors, discretisation, simulate, simulate_closed_loop, condense, get_mode)', 'numpy, scipy.linalg.expm, sympy']
STUB = ['the plant (matrix exponential by Taylor series), network, clock']
ASSUMPTIONS = ['sampling intervals and dynamics with |A| h up to about 3, up to 15 for stable dynamics; predictions within 1e-7 of the trajectory\'s scale']


def generate(rng, tier):
    pwa = rng.random() < .3
    T = rng.randint(4, 12 if tier == 'quick' else 24)
    if rng.random() < .08:
        T = rng.randint(20, 45)
    sc = {'steps': T, 'events': []}
    if rng.random() < .15:
        # a blackout: no measurement arrives for a long while
        sc['blackout'] = [rng.randint(0, 4), rng.randint(4, T)]
    if pwa:
        sp = spec_pwa(rng, nm=rng.choice([1, 4]) if rng.random() < .15 else None)
        if rng.random() < .3:
            # contracting modes: the plant stays within its domains for long
            for m in sp['modes']:
                m['A'] = (np.array(m['A']) * .5).round(3).tolist()
                m['B'] = (np.array(m['B']) * .4).round(3).tolist()
        sc.update(kind='pwa', spec=sp)
        nx, nu = sp['nx'], sp['nu']
    else:
        nx, nu = rng.choice([1, 2, 2, 3, 4]), rng.choice([1, 1, 2, 3])
        h = rng.choice([.01, .05, .1, .3, 1.])
        A = np.array([[rng.gauss(0, 1) for _ in range(nx)] for _ in range(nx)])
        k = rng.random()
        if k < .25:                 # chains of integrators, singular A
            A = np.diag(np.ones(nx - 1), 1) if nx > 1 else np.zeros((1, 1))
        elif k < .35:
            A = A * 0.
        A = A / max(1., np.max(np.abs(np.linalg.eigvals(A))) * h / .4)
        shift = rng.choice([0., 0., .5])
        A = np.round(A - shift * np.eye(nx), 3)
        if rng.random() < .15:
            # modes much faster than the sampling
            k = rng.uniform(3., 14.) / h
            M = np.array([[rng.gauss(0, 1) for _ in range(nx)] for _ in range(nx)])
            A = np.round(k * (.5 * M / max(1., np.linalg.norm(M)) - .6 * np.eye(nx)), 3)
        sc.update(kind='ct' if rng.random() < .75 else 'dt', A=A.tolist(), B=[[rnd(rng, -1., 1.) for _ in range(nu)] for _ in range(nx)],
                  c=[rnd(rng, -1., 1.) for _ in range(nx)] if rng.random() < .5 else [0.] * nx, h=h, method=rng.choice(['zero_order_hold'] * 3 + ['explicit_euler', None]))
        if sc['kind'] == 'dt':
            M = np.array([[rng.gauss(0, 1) for _ in range(nx)] for _ in range(nx)])
            sc['A'] = np.round(M / max(.3, np.max(np.abs(np.linalg.eigvals(M)))) * rng.uniform(.2, 1.15), 3).tolist()
        sc['int'] = rng.random() < .08
        sc['cls'] = 'linear' if not any(sc['c']) and rng.random() < .7 else 'affine'
        sc['build'] = rng.choice(['numeric', 'numeric', 'symbolic'])
    sc['nx'], sc['nu'] = nx, nu
    sc['x0'] = [round(rng.gauss(0, 1), 3) for _ in range(nx)]
    sc['u'] = [[rnd(rng, -1., 1.) for _ in range(nu)] for _ in range(T)]
    sc['buffer'] = rng.random() < .4
    for t in range(T):
        for what, p in (('lost-command', .15), ('lost-measurement', .35), ('late-measurement', .15), ('restart', .08), ('fault', .1), ('jitter', .12), ('rate', .15), ('loop', .15), ('refuse', .08)):
            if rng.random() < p:
                e = {'t': t, 'e': what}
                if what == 'fault':
                    e['fault'] = {'exc': rng.choice(['backend', 'interrupt', 'memory']), 'fs': round(rng.random(), 4), 'fo': round(rng.random(), 4)}
                if what == 'jitter':
                    e['k'] = rng.choice([.25, .5, 1.5, 2., .9])
                if what == 'rate':
                    e['k'] = rng.randint(2, 5)
                if what == 'late-measurement':
                    e['k'] = rng.randint(1, 3)
                if what == 'loop':
                    e['K'] = [[rnd(rng, -.5, .5) for _ in range(nx)] for _ in range(nu)]
                    e['n'] = rng.randint(1, 5) if rng.random() < .8 else rng.randint(6, 50)
                if what == 'refuse':
                    e['k'] = rng.choice(['h', 'rows', 'square', 'method', 'offset', 'c'])
                    e['a'], e['b'] = rng.randint(0, 4), rng.randint(0, 99)
                sc['events'].append(e)
    return sc


def execute(sc, ctx):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        (pwa if sc['kind'] == 'pwa' else lti)(sc, ctx)


def dark(sc, t):
    b = sc.get('blackout')
    return bool(b) and b[0] <= t < b[1]


def lib(f, what, fault=None, expect=None):
    st, v = SEAM.run(f, fault=fault, rng=1, budget=3000000)
    if st == 'exc':
        if isinstance(v, SimStop):
            raise Violation('no-progress', '%s did not end within its step budget' % what)
        if SEAM.fired:
            return 'failed'
        if expect and isinstance(v, expect):
            return 'refused'
        raise Violation('crash', '%s raised %r' % (what, v))
    if expect and not SEAM.fired:
        raise Violation('accepted', '%s was not refused' % what)
    return v


class Model(object):
    """How the node builds its model for a sampling interval."""

    def __init__(self, sc):
        self.sc = sc
        self.cache = {}

    def mats(self):
        sc = self.sc
        t = int if sc.get('int') else float
        A, B, c = np.array(sc['A'], float), np.array(sc['B'], float), np.array(sc['c'], float)
        if sc.get('int'):
            A, B, c = np.round(A), np.round(B * 2), np.round(c)
        return A, B, c, t

    def get(self, h, fault=None):
        if h not in self.cache:
            v = lib(lambda: self.build(h), 'building the model', fault)
            if isinstance(v, str):
                return None
            self.cache[h] = v
        return self.cache[h]

    def build(self, h):
        from pympc.dynamics.discrete_time_systems import LinearSystem, AffineSystem
        sc = self.sc
        A, B, c, t = self.mats()
        A, B, c = A.astype(t), B.astype(t), c.astype(t)
        if sc['build'] == 'symbolic':
            import sympy as sp
            x, u = sp.Matrix(sp.symbols('x0:%d' % sc['nx'])), sp.Matrix(sp.symbols('u0:%d' % sc['nu']))
            e = sp.Matrix(A.tolist()) * x + sp.Matrix(B.tolist()) * u + sp.Matrix(c.tolist())
            if sc['kind'] == 'dt':
                return (LinearSystem if sc['cls'] == 'linear' else AffineSystem).from_symbolic(x, u, e)
            k = (h,) if sc['method'] is None else (h, sc['method'])
            return (LinearSystem if sc['cls'] == 'linear' else AffineSystem).from_symbolic_continuous(x, u, e, *k)
        if sc['kind'] == 'dt':
            return LinearSystem(A, B) if sc['cls'] == 'linear' else AffineSystem(A, B, c)
        k = (h,) if sc['method'] is None else (h, sc['method'])
        return LinearSystem.from_continuous(A, B, *k) if sc['cls'] == 'linear' else AffineSystem.from_continuous(A, B, c, *k)

    # reference
    def flow(self, x, u, h):
        sc = self.sc
        A, B, c, _ = self.mats()
        if sc['kind'] == 'dt':
            return A.dot(x) + B.dot(u) + c
        v = B.dot(u) + c
        if sc['method'] == 'explicit_euler':
            return x + h * (A.dot(x) + v)
        n = len(x)
        M = np.zeros((n + 1, n + 1))
        k = max(1., float(np.max(np.abs(v))))       # the exponential loses digits in a matrix of large entries
        M[:n, :n], M[:n, n] = A, v / k
        return expm_taylor(M * h).dot(np.append(x, k))[:n]


def close(got, want, what):
    got = [np.asarray(g, float) for g in got]
    if len(got) != len(want) or any(g.shape != w.shape for g, w in zip(got, want)):
        raise Violation('prediction', '%s: shapes %s, should be %s' % (what, [g.shape for g in got], [w.shape for w in want]))
    s = 1. + max(np.max(np.abs(w)) for w in want)
    for i, (g, w) in enumerate(zip(got, want)):
        if not np.max(np.abs(g - w)) <= 1e-7 * s:
            raise Violation('prediction', '%s: state %d is %s, the plant is at %s' % (what, i, g, w))


def lti(sc, ctx):
    M = Model(sc)
    nx, nu = sc['nx'], sc['nu']
    ev = {}
    for e in sc['events']:
        ev.setdefault(e['t'], {})[e['e']] = e
    x = np.array(sc['x0'])
    states, ins, ivals = [x], [], []
    stamp, known = 0, x.copy()       # the last measurement the node has
    late = []
    held = np.zeros(nu)
    buf = np.zeros(nx)
    for t in range(sc['steps']):
        E = ev.get(t, {})
        for k in E:
            ctx.mark(k)
            if k in ('lost-command', 'lost-measurement', 'late-measurement', 'restart', 'jitter'):
                ctx.count('fault/' + k)
        if 'restart' in E:
            M = Model(sc)
        if 'refuse' in E:
            refuse(sc, M, **{x: E['refuse'].get(x, 0) for x in 'kab'})
            ctx.count('refused')
        h = sc['h'] * (E['jitter']['k'] if 'jitter' in E and sc['kind'] == 'ct' else 1.)
        u = np.array(sc['u'][t])
        if 'lost-command' in E:
            u = held
        held = u
        if 'fault' in E:
            f = E['fault']['fault']
            M.cache.clear()
            if 'k' not in f:
                tr = []
                SEAM.run(lambda: M.build(h), trace=tr, rng=1)
                f['k'] = place_fault(tr, f['fs'], f['fo']) or 0
            if f['k']:
                M.get(h, {'k': f['k'], 'exc': f['exc']})
        xn = M.flow(x, u, h)
        S = M.get(h)
        if 'rate' in E and sc['kind'] == 'ct' and sc['method'] != 'explicit_euler':
            k = E['rate']['k']
            F = M.get(h / k)
            got = lib(lambda: F.simulate(x.copy(), [u.copy()] * k), 'simulate')
            want = [x]
            for j in range(k):
                want.append(M.flow(want[-1], u, h / k))
            close(got, want, 'a node %d times faster' % k)
            close([got[-1]], [xn], 'a node %d times faster, at the slow instant' % k)
            ctx.count('multi-rate')
        if 'loop' in E and sc['cls'] == 'linear':
            K, n = np.array(E['loop']['K']), E['loop']['n']
            got = lib(lambda: S.simulate_closed_loop(x.copy(), n, K), 'simulate_closed_loop')
            want = [x]
            for j in range(n):
                want.append(M.flow(want[-1], K.dot(want[-1]), h))
            close(got, want, 'closed loop')
            ctx.count('closed-loop')
        states.append(xn)
        ins.append(u)
        ivals.append(h)
        x = xn
        ctx.simtime += 1
        # measurements
        if 'late-measurement' in E:
            late.append((t + 1 + E['late-measurement']['k'], t + 1, x.copy()))
        elif 'lost-measurement' not in E and not dark(sc, t):
            stamp, known = t + 1, x.copy()
        for a in [a for a in late if a[0] <= t + 1]:
            late.remove(a)
            if a[1] > stamp:
                stamp, known = a[1], a[2]
        # the node predicts the present from what it knows
        if stamp < t + 1:
            k = t + 1 - stamp
            us, hs, want = ins[stamp:], ivals[stamp:], states[stamp:]
            z = known
            if sc['buffer']:
                buf[:] = known
                z = buf
            got = [z.copy()]
            for v, dt in zip(us, hs):
                one = lib(lambda: M.get(dt).simulate(got[-1], [v]), 'simulate')
                close([one[0]], [got[-1]], 'first state of a simulation')
                got.append(one[-1])
            close(got, want, 'step-by-step prediction over %d intervals' % k)
            if len(set(hs)) == 1:
                S = M.get(hs[0])
                got = lib(lambda: S.simulate(z, us), 'simulate')
                close(got, want, 'simulation over %d intervals' % k)
                bar = lib(lambda: S.condense(k), 'condense')
                try:
                    v = np.asarray(bar[0]).dot(known) + np.asarray(bar[1]).dot(np.concatenate(us)) + (np.asarray(bar[2]) if len(bar) > 2 else 0.)
                except Exception as e:
                    raise Violation('prediction', 'condensed matrices over %d intervals: %r' % (k, e))
                if v.shape != (nx * (k + 1),):
                    raise Violation('prediction', 'condensed prediction over %d intervals has shape %s' % (k, v.shape))
                close(np.split(v, k + 1), want, 'condensed prediction over %d intervals' % k)
                ctx.count('condensed')
            if not np.array_equal(z, known):
                raise Violation('altered', 'predicting changed the measurement')
            ctx.log(t, 'predicted', k, got[-1])
            if k >= 2:
                ctx.nontrivial = True
            ctx.count('predicted')
        ctx.log(t, x)


def refuse(sc, M, k, a, b):
    """Constructions that must be refused; a and b choose among the variants."""
    from pympc.dynamics.discrete_time_systems import LinearSystem, AffineSystem
    from pympc.dynamics.discretization_methods import explicit_euler, zero_order_hold
    A, B, c, _ = M.mats()
    n = sc['nx']
    method = ['zero_order_hold', 'explicit_euler'][b % 2]
    no = lambda f, what: lib(f, what, expect=ValueError)
    if k == 'h':
        h = [-.1, -1e-3, -1e-6, -2., -1.][a]
        no(lambda: AffineSystem.from_continuous(A, B, c, h, method), 'a negative sampling interval')
        no(lambda: LinearSystem.from_continuous(A, B, h, method), 'a negative sampling interval')
        no(lambda: (zero_order_hold if b % 2 else explicit_euler)(A, B, c, h), 'a negative sampling interval')
    elif k == 'rows':
        W = [np.vstack((B, B)), np.vstack((B, B[:1])), np.vstack((B, np.zeros_like(B[:1]))), np.vstack((B[:1], B)), B[:-1] if n > 1 else np.vstack((B, B))][a]
        no(lambda: LinearSystem(A, W), 'an input matrix with the wrong rows')
        no(lambda: AffineSystem(A, W, c), 'an input matrix with the wrong rows')
        no(lambda: LinearSystem.from_continuous(A, W, .1, method), 'an input matrix with the wrong rows')
        no(lambda: AffineSystem.from_continuous(A, W, c, .1, method), 'an input matrix with the wrong rows')
    elif k == 'square':
        W = [np.column_stack((A, A)), np.column_stack((A, A[:, 0])), np.vstack((A, A[:1])), A[:, :-1] if n > 1 else np.column_stack((A, A)), np.column_stack((A, B))][a]
        V = B if W.shape[0] == n else np.vstack((B, B[:1]))
        no(lambda: LinearSystem(W, V), 'a rectangular state matrix')
        no(lambda: AffineSystem(W, V, np.zeros(W.shape[0])), 'a rectangular state matrix')
        no(lambda: LinearSystem.from_continuous(W, V, .1, method), 'a rectangular state matrix')
    elif k == 'method':
        m = ['midpoint', 'euler', 'ZERO_ORDER_HOLD', '', None][a]
        no(lambda: LinearSystem.from_continuous(A, B, .1, m), 'an unknown method')
        no(lambda: AffineSystem.from_continuous(A, B, c, .1, m), 'an unknown method')
    elif k == 'c':
        w = [np.append(c, 1.), np.append(c, 0.), np.concatenate((c, c)), c[:-1], np.append(0., c)][a]
        no(lambda: AffineSystem(A, B, w), 'an offset of the wrong size')
        no(lambda: AffineSystem.from_continuous(A, B, w, .1, method), 'an offset of the wrong size')
        no(lambda: AffineSystem(A, B, np.zeros((n, 1))), 'a two-dimensional offset')
    elif k == 'offset':
        import sympy as sp
        x, u = sp.Matrix(sp.symbols('x0:%d' % n)), sp.Matrix(sp.symbols('u0:%d' % sc['nu']))
        w = np.zeros(n)
        w[b % n] = [.3, -.3, 1e-3, 5., -.02][a]
        if n > 1 and b % 3 == 0:
            w[(b + 1) % n] = -w[b % n]
        e = sp.Matrix(A.tolist()) * x + sp.Matrix(B.tolist()) * u + sp.Matrix(w.tolist())
        no(lambda: LinearSystem.from_symbolic(x, u, e), 'a linear system with the offset %s' % w)
        no(lambda: LinearSystem.from_symbolic_continuous(x, u, e, .1, method), 'a linear system with the offset %s' % w)


def refuse_pwa(mats, doms, nx, nu, a, b):
    """Piecewise-affine systems whose parts do not fit together."""
    from pympc.geometry.polyhedron import Polyhedron
    from pympc.dynamics.discrete_time_systems import AffineSystem, PieceWiseAffineSystem

    def parts():
        return [AffineSystem(*m) for m in mats], [Polyhedron(F, h) for F, h in doms]
    box = lambda n: Polyhedron.from_bounds(-np.ones(n), np.ones(n))
    S, D = parts()
    i = b % len(S)
    if a == 0:
        (S if b % 2 else D).pop()
        what = 'another number of systems and domains'
    elif a == 1:
        S[i] = AffineSystem(np.eye(nx + 1), np.ones((nx + 1, nu)), np.zeros(nx + 1))
        what = 'a mode with more states'
    elif a == 2:
        S[i] = AffineSystem(np.eye(nx), np.ones((nx, nu + 1)), np.zeros(nx))
        what = 'a mode with more inputs'
    elif a == 3:
        D[i] = box(nx + nu + (1 if b % 2 else -1))
        what = 'a domain of another dimension'
    else:
        k = 1 if b % 2 else -1
        D = [box(nx + nu + k) for _ in D]
        what = 'domains of another dimension than states and inputs'
    lib(lambda: PieceWiseAffineSystem(S, D), what, expect=ValueError)


def pwa(sc, ctx):
    from pympc.geometry.polyhedron import Polyhedron
    from pympc.dynamics.discrete_time_systems import AffineSystem, LinearSystem, PieceWiseAffineSystem
    sp = sc['spec']
    nx, nu = sc['nx'], sc['nu']
    mats = [[np.array(m[k], float) for k in 'ABc'] for m in sp['modes']]
    doms = domains(sp)

    def build():
        S = [LinearSystem(m[0], m[1]) if sp['linear0'] and not np.any(m[2]) else AffineSystem(*m) for i, m in enumerate(mats)]
        return PieceWiseAffineSystem(S, [Polyhedron(F, h) for F, h in doms])

    def mode(x, u):
        v = [float(np.max(F.dot(np.concatenate((x, u))) - h)) for F, h in doms]
        if any(abs(t) < 1e-5 for t in v):
            return '?'
        return next((m for m, t in enumerate(v) if t < 0), None)
    ev = {}
    for e in sc['events']:
        ev.setdefault(e['t'], {})[e['e']] = e
    S = lib(build, 'building')
    lo, hi = np.array(sp['xlo']), np.array(sp['xhi'])
    ul, uh = np.array(sp['ulo']), np.array(sp['uhi'])
    x = (lo + hi) / 2 + np.tanh(np.array(sc['x0'])) * (hi - lo) * .45
    states, ins, modes = [x], [], []
    stamp = 0
    held = (ul + uh) / 2
    for t in range(sc['steps']):
        E = ev.get(t, {})
        for k in E:
            ctx.mark(k)
            if k in ('lost-command', 'lost-measurement', 'restart'):
                ctx.count('fault/' + k)
        if 'restart' in E:
            S = lib(build, 'building')
        if 'refuse' in E:
            refuse_pwa(mats, doms, nx, nu, E['refuse']['a'], E['refuse']['b'])
            ctx.count('refused')
        u = ul + (np.array(sc['u'][t]) + 1) / 2 * (uh - ul)
        if 'lost-command' in E:
            u = held
        held = u
        m = mode(x, u)
        if m == '?':
            break
        got = lib(lambda: S.get_mode(x.copy(), u.copy()), 'get_mode')
        if got != m or got is not None and isinstance(got, (bool, np.bool_)):
            raise Violation('prediction', 'the mode of %s, %s is %s, should be %s' % (x, u, got, m))
        ctx.count('mode')
        if m is None:
            # the plant left every domain: a simulation through this point must say so
            lib(lambda: S.simulate(states[stamp].copy(), [v.copy() for v in ins[stamp:] + [u]]), 'a simulation that leaves every domain', expect=ValueError)
            ctx.count('left-domain')
            break
        A, B, c = mats[m]
        x = A.dot(x) + B.dot(u) + c
        states.append(x)
        ins.append(u)
        modes.append(m)
        ctx.simtime += 1
        if 'lost-measurement' not in E:
            if 'fault' in E:
                f = E['fault']['fault']
                g = lambda: S.simulate(states[stamp].copy(), ins[stamp:])
                if 'k' not in f:
                    tr = []
                    SEAM.run(g, trace=tr, rng=1)
                    f['k'] = place_fault(tr, f['fs'], f['fo']) or 0
                if f['k']:
                    lib(g, 'simulate', {'k': f['k'], 'exc': f['exc']})
            stamp = t + 1 if t % 3 == 0 and not dark(sc, t) else stamp
        k = t + 1 - stamp
        if k < 1:
            continue
        want = states[stamp:]
        v = lib(lambda: S.simulate(states[stamp].copy(), ins[stamp:]), 'simulate')
        try:
            got, ms = v
        except Exception as e:
            raise Violation('prediction', 'simulate answered %r' % (v,))
        close(got, want, 'simulation over %d steps' % k)
        if [int(a) for a in ms] != modes[stamp:]:
            raise Violation('prediction', 'the simulation goes through the modes %s, the plant through %s' % (ms, modes[stamp:]))
        bar = lib(lambda: S.condense(list(modes[stamp:])), 'condense')
        try:
            y = np.asarray(bar[0]).dot(states[stamp]) + np.asarray(bar[1]).dot(np.concatenate(ins[stamp:])) + np.asarray(bar[2])
        except Exception as e:
            raise Violation('prediction', 'condensed matrices of the modes %s: %r' % (modes[stamp:], e))
        if y.shape != (nx * (k + 1),):
            raise Violation('prediction', 'condensed prediction has shape %s' % (y.shape,))
        close(np.split(y, k + 1), want, 'condensed prediction through the modes %s' % modes[stamp:])
        if k >= 2:
            ctx.nontrivial = True
        ctx.count('predicted')
        ctx.log(t, x, m)
