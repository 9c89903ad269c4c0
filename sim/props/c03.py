"""C03: no operation alters what belongs to the caller, other objects, or answers already handed out."""
import copy
import warnings
import numpy as np

from sim.core import Violation
from sim.seams import SEAM, SimStop, Injected, place_fault
from sim.world import World, generate_ops, rnd, rows
from sim.plants import gen_linear
from sim.hybrid import domains, spec_pwa
from sim.props.c06 import program

ID = 'C03'
RUNS = {'quick': 4000, 'thorough': 40000}
TIME_UNIT = 'operations'
RULE = ('A run is a seeded history over the whole library: polyhedra, programs, plants, linear and hybrid controllers, explicit solutions, '
        'plots and utilities, fed with arrays and lists that the caller keeps and reuses, some operations made to fail from inside. After '
        'every operation everything the caller holds (arguments, answers already received, the rows and matrices of every object not named '
        'as the target of a change) is compared bit by bit with what it was. Non-trivial: at least five operations ran, of two families or with a fault.')
REAL = ['all of pympc except the drake back end', 'numpy, scipy, gurobi, matplotlib (Agg), sympy']
STUB = ['the failing call when a fault is injected']
ASSUMPTIONS = ['the caller itself does not write in the arrays it has given away']


# -- snapshots ---------------------------------------------------------------------------------

PUBLIC = ('A', 'b', 'C', 'd', 'B', 'c', 'H', 'f', 'g', 'Q', 'R', 'P', 'N', 'S', 'D', 'X_N', 'nx', 'nu', 'nm', 'affine_systems', 'domains',
          'active_set', 'polyhedron', 'critical_regions')


def snap(v, depth=0):
    """A comparable copy: arrays by value and type, containers by content, library objects by identity and public definition."""
    if isinstance(v, np.ndarray):
        return ('array', v.dtype.str, v.shape, v.tobytes())
    if v is None or isinstance(v, (bool, int, float, str, np.generic)):
        return (type(v).__name__, repr(v))
    if isinstance(v, (list, tuple)):
        return (type(v).__name__, [snap(x, depth) for x in v])
    if isinstance(v, dict):
        return ('dict', [(k, snap(v[k], depth)) for k in sorted(v, key=str)])
    if isinstance(v, (set, frozenset)):
        return ('set', sorted(map(repr, v)))
    mod = type(v).__module__
    if mod.startswith('sympy'):
        return ('sympy', str(v))
    if mod.startswith('pympc'):
        if depth > 4:
            return ('object', id(v))
        d = getattr(v, '__dict__', {})
        return ('object', id(v), [(k, snap(d[k], depth + 1)) for k in PUBLIC if k in d])
    return ('other', id(v))


def where(a, b, path=''):
    if type(a) is tuple and type(b) is tuple and len(a) == len(b) and a[:1] == b[:1]:
        if a[0] in ('list', 'tuple') and len(a[1]) == len(b[1]):
            for i, (x, y) in enumerate(zip(a[1], b[1])):
                if x != y:
                    return where(x, y, path + '[%d]' % i)
        if a[0] in ('dict', 'object') and len(a[-1]) == len(b[-1]):
            for (k, x), (_, y) in zip(a[-1], b[-1]):
                if x != y:
                    return where(x, y, path + '.' + str(k))
        if a[0] == 'array':
            try:
                return '%s: %s became %s' % (path, np.frombuffer(b[3], b[1]).tolist(), np.frombuffer(a[3], a[1]).tolist())
            except Exception:
                pass
    return '%s: %s became %s' % (path, str(b)[:200], str(a)[:200])


# -- generation --------------------------------------------------------------------------------

UTIL = ['nullspace', 'indep', 'plane', 'same_rows', 'same_vectors', 'euler', 'zoh', 'linsym', 'affsym', 'check', 'plotx', 'plotu', 'plotss', 'ploty', 'getmat', 'chull',
        'linct', 'affct', 'prodlist', 'condseq', 'mcaisfn', 'mcaisfn', 'chm', 'pnnls', 'statemat']
LIN = ['parts', 'parts', 'centers', 'ff', 'fb', 'sim', 'simcl', 'condense', 'dare', 'mcais', 'store', 'store', 'ffe', 'ffe', 'fbe', 'partition', 'value', 'feasible', 'parts', 'region']
PWA = ['hocp', 'hmiqp', 'hff', 'hff', 'hfb', 'hsim', 'hcondense', 'hmode', 'hposed', 'hmpqp']


def generate(rng, tier):
    theme = rng.choice(['poly', 'mixed', 'mixed', 'plant', 'plant', 'programs'])
    ops = []
    n = rng.randint(7, 14)
    if theme in ('poly', 'mixed'):
        ops = generate_ops(rng, n, [.8, 2., 2., 2.]).ops
    other = []
    nplant = 0
    for _ in range(n if theme != 'poly' else 2):
        k = rng.choices(['prog', 'util', 'lin', 'pwa', 'asklin', 'askpwa'],
                        {'poly': [1, 3, 0, 0, 0, 0], 'mixed': [1, 2, .8, .4, 3, 1.5], 'plant': [.3, .6, 1., .7, 5, 3], 'programs': [4, 2, 0, 0, 0, 0]}[theme])[0]
        if k in ('asklin', 'askpwa') and not any(o['op'] == 'make' and o['kind'] == k[3:] for o in other):
            k = k[3:]
        if k == 'prog':
            p = program(rng)
            other.append({'op': 'prog', 'p': p, 'solver': rng.choice(['pnnls', 'gurobi', 'gurobi'])})
        elif k == 'util':
            other.append({'op': 'util', 'k': rng.choice(UTIL), 'n': rng.randint(2, 4), 'm': rng.randint(2, 5), 'v': [rnd(rng, -2., 2.) for _ in range(40)],
                          's': rng.choice(['float', 'float', 'int', 'fortran', 'view']), 'bad': rng.random() < .15})
        elif k in ('lin', 'pwa'):
            nplant += 1
            sp = gen_linear(rng, nx=rng.choice([1, 2, 2, 2]), N=rng.choice([1, 2, 2, 3])) if k == 'lin' else spec_pwa(rng, N=rng.choice([1, 2, 2]))
            other.append({'op': 'make', 'kind': k, 'o': 's%d' % nplant, 'spec': sp})
        else:
            mine = [o['o'] for o in other if o['op'] == 'make' and o['kind'] == k[3:]]
            other.append({'op': 'ask', 'o': rng.choice(mine), 'q': rng.choice(LIN if k == 'asklin' else PWA), 'z': [round(rng.gauss(0, 1), 3) for _ in range(4)],
                          'u': [[rnd(rng, -1., 1.) for _ in range(2)] for _ in range(rng.randint(1, 4))], 'n': rng.randint(1, 4), 'w': [rng.randrange(2) for _ in range(3)]})
    # interleave
    out = []
    while ops or other:
        L = ops if ops and (not other or rng.random() < len(ops) / (len(ops) + len(other))) else other
        out.append(L.pop(0))
    rate = rng.choice([0., .15, .3])
    for op in out:
        if rng.random() < rate:
            op['fault'] = {'exc': rng.choice(['backend', 'interrupt', 'memory']), 'fs': round(rng.random(), 4), 'fo': round(rng.random(), 4)}
    return {'ops': out}


# -- execution ---------------------------------------------------------------------------------

class Iso(object):

    def __init__(self, ctx):
        self.ctx = ctx
        self.w = World(ctx, watch=False)
        self.held = []            # label, live, snapshot
        self.w.give = self.give
        self.w.result = self.result
        self.plants = {}
        self.families = set()
        self.done = 0
        self.hit = False

    def give(self, label, v):
        self.held.append((label, v, snap(v)))
        return v

    def result(self, label, v):
        if v is not None:
            self.held.append(('the answer ' + label, v, snap(v)))

    def check(self, when, skip=()):
        for label, live, s in self.held:
            t = snap(live)
            if t != s:
                raise Violation('altered', '%s%s, %s' % (label, where(t, s), when))

    def run(self, i, op):
        ctx = self.ctx
        if op['op'] not in ('prog', 'util', 'make', 'ask'):
            w = self.w
            mut = op['op'] in ('ineq', 'eq', 'lb', 'ub', 'bounds', 'symineq', 'symeq', 'normalize', 'prune')
            before = {n: snap(rows(p)) for n, p in w.obj.items() if not (mut and n == op['o'])}
            r = w.run(op, i)
            if r == 'skip':
                return
            when = 'after %s on %s%s' % (op['op'], op['o'], ' (which failed)' if r == 'failed' else '')
            for n, s in before.items():
                if n in w.obj and n != op['o'] or (n == op['o'] and not mut and op['op'] in ('empty', 'bounded', 'radius', 'center', 'vertices', 'contains', 'incl', 'minimal', 'plot')):
                    t = snap(rows(w.obj[n]))
                    if t != s:
                        raise Violation('other-object', '%s%s, %s' % (n, where(t, s), when))
            self.check(when)
            self.families.add('poly')
            self.done += 1
            self.hit |= r == 'failed'
            return
        mark = len(self.held)
        pre = getattr(self, 'do_' + op['op'])(op)
        if pre is None:
            del self.held[mark:]
            return
        label, thunk, fin = pre
        f = op.get('fault')
        fault = None
        if f:
            if 'k' not in f:
                tr = []
                d = Iso(type(ctx)())
                d.plants = copy.deepcopy(self.plants)
                pd = getattr(d, 'do_' + op['op'])(op)
                if pd is not None:
                    SEAM.run(pd[1], trace=tr, rng=i + 1, budget=20000000)
                f['k'] = place_fault(tr, f['fs'], f['fo']) or 0
            if f['k']:
                fault = {'k': f['k'], 'exc': f['exc']}
        before = {n: snap(rows(p)) for n, p in self.w.obj.items()}
        st, v = SEAM.run(thunk, fault=fault, rng=i + 1, budget=20000000)
        fired = SEAM.fired
        ctx.mark(label, bool(fired))
        ctx.log(i, label, st, fired and fired['site'])
        ctx.simtime += 1
        ctx.count('ran/' + label)
        if isinstance(v, SimStop):
            raise Violation('no-progress', '%s did not end within its step budget' % label)
        if st == 'exc' and not fired and not op.get('bad') and not isinstance(v, ValueError):
            raise Violation('crash', '%s raised %r' % (label, v))
        when = 'after %s%s' % (label, ' with injected %s in %s' % (fired['kind'], fired['site']) if fired else '')
        self.check(when)
        for n, s in before.items():
            t = snap(rows(self.w.obj[n]))
            if t != s:
                raise Violation('other-object', '%s%s, %s' % (n, where(t, s), when))
        if st == 'ok':
            if fin:
                fin(v)
            else:
                self.result(label, v)
        self.families.add(op['op'])
        self.done += 1
        self.hit |= bool(fired)

    # programs ------------------------------------------------------------------------------------
    def do_prog(self, op):
        from pympc.optimization import programs as pr
        p = op['p']
        g = lambda k: None if not p.get(k) else self.give(k, np.array(p[k], float))
        A, b, C, d, f = g('A'), g('b'), g('C'), g('d'), self.give('f', np.array(p['f'], float))
        if A is None:
            return None
        H = self.give('H', np.array(p['H'], float)) if 'H' in p else None
        if p['kind'] == 'lp':
            go = lambda: pr.linear_program(f, A, b, C, d, solver=op['solver'])
        elif p['kind'] == 'qp':
            go = lambda: pr.quadratic_program(H, f, A, b, C, d, solver=op['solver'])
        else:
            go = lambda: pr.mixed_integer_quadratic_program(p['n'], H, f, A, b, C, d)
        return p['kind'] + '-' + op['solver'], go, None

    # utilities -----------------------------------------------------------------------------------
    def do_util(self, op):
        from pympc.geometry import utils as gu, polyhedron as po
        from pympc.dynamics import utils as du, discretization_methods as dm, discrete_time_systems as ds
        from pympc import plot as pp
        n, m, k = op['n'], op['m'], op['k']
        pool = np.array(op['v'])
        pos = [0]

        def arr(*shape):
            c = int(np.prod(shape))
            v = np.resize(np.roll(pool, -pos[0]), c).reshape(shape)
            pos[0] += 7
            if op['s'] == 'int':
                v = np.round(2 * v).astype(int)
                v[v == 0] = 1
            elif op['s'] == 'fortran':
                v = np.asfortranarray(v)
            elif op['s'] == 'view':
                big = np.zeros(tuple(2 * s for s in shape))
                view = big[tuple(slice(0, s) for s in shape)]
                view[...] = v
                self.give('the array around an argument', big)
                v = view
            else:
                v = v.copy()
            return v
        G = lambda label, v: self.give(label + ' of ' + k, v)

        def fig(f):
            def go():
                import matplotlib.pyplot as plt
                try:
                    f()
                finally:
                    plt.close('all')
            return go
        if k == 'nullspace':
            A = G('A', arr(m, n))
            go = lambda: gu.nullspace_basis(A)
        elif k == 'indep':
            A = G('A', arr(min(m, n), n))
            go = lambda: gu.linearly_independent_rows(A)
        elif k == 'plane':
            P = G('points', [arr(n) + 3. * np.eye(n)[i] for i in range(n)])
            if abs(np.linalg.det(np.vstack([p - P[0] for p in P[1:]] + [np.ones(n)]))) < .1:
                return None
            go = lambda: gu.plane_through_points(P)
        elif k == 'same_rows':
            A = G('A', arr(m, n))
            B = G('B', arr(m, n) if op['bad'] else A[::-1] * 2)
            go = lambda: gu.same_rows(A, B)
        elif k == 'same_vectors':
            U, V = G('u', [arr(n) for _ in range(m)]), G('v', [arr(n) for _ in range(m)])
            go = lambda: gu.same_vectors(U, V)
        elif k in ('euler', 'zoh', 'check', 'linct', 'affct'):
            A, B, c = G('A', arr(n, n)), G('B', arr(n + op['bad'], 1)), G('c', arr(n))
            h = .1
            go = {'euler': lambda: dm.explicit_euler(A, B, c, h), 'zoh': lambda: dm.zero_order_hold(A, B, c, h), 'check': lambda: du.check_affine_system(A, B, c, h),
                  'linct': lambda: ds.LinearSystem.from_continuous(A, B, h), 'affct': lambda: ds.AffineSystem.from_continuous(A, B, c, h)}[k]
        elif k in ('linsym', 'affsym', 'getmat'):
            import sympy as sp
            x, u = sp.Matrix(sp.symbols('x0:%d' % n)), sp.Matrix(sp.symbols('u0:2'))
            e = sp.Matrix(np.round(pool[:n * n], 2).reshape(n, n).tolist()) * x + sp.Matrix(np.round(pool[-2 * n:], 2).reshape(n, 2).tolist()) * u
            if op['bad'] or k == 'affsym':
                e = e + sp.ones(n, 1)
            for s, v in (('x', x), ('u', u), ('expression', e)):
                G(s, v)
            go = {'linsym': lambda: ds.LinearSystem.from_symbolic(x, u, e), 'affsym': lambda: ds.AffineSystem.from_symbolic_continuous(x, u, e, .1),
                  'getmat': lambda: po.get_matrices_affine_expression(x, e.subs({s: 0 for s in u}))}[k]
        elif k == 'plotx':
            x, b = G('x', [arr(n) for _ in range(m)]), G('bounds', [arr(n), arr(n)])
            go = fig(lambda: pp.plot_state_trajectory(x, .1, b))
        elif k == 'plotu':
            x, b = G('u', [arr(n) for _ in range(m)]), G('bounds', [arr(n), arr(n)])
            go = fig(lambda: pp.plot_input_sequence(x, .1, b))
        elif k == 'plotss':
            x, d = G('x', [arr(n) for _ in range(m)]), G('dim', [n - 1, 0])
            go = fig(lambda: pp.plot_state_space_trajectory(x, dim=d, text=True))
        elif k == 'ploty':
            x, C, b = G('x', [arr(n) for _ in range(m)]), G('C', arr(2, n)), G('bounds', [arr(2), arr(2)])
            go = fig(lambda: pp.plot_output_trajectory(C, x, .1, b))
        elif k == 'chull':
            P = arr(n + 4, n)
            if np.linalg.svd(P - P.mean(axis=0), compute_uv=False)[-1] < .3:
                return None
            pts = G('points', [r for r in P])
            go = lambda: po.Polyhedron.from_convex_hull(pts)
        elif k == 'prodlist':
            L = G('matrices', [arr(n, n) for _ in range(m)])
            go = lambda: ds.productory(L)
        elif k == 'mcaisfn':
            A = arr(n, n).astype(float)
            A = G('A', A / max(np.max(np.abs(np.linalg.eigvals(A))), .1) * .8)
            s = 1. + np.abs(arr(2 * n))
            X = G('the set', po.Polyhedron(G('rows', np.vstack((np.eye(n), -np.eye(n))) * s[:, None]), G('right side', 1. + np.abs(arr(2 * n)))))
            go = lambda: ds.mcais(A, X)
        elif k == 'chm':
            A, b = G('rows', np.vstack((np.eye(n), -np.eye(n), arr(m, n)))), G('right side', np.concatenate((np.ones(2 * n), 1. + np.abs(arr(m)))))
            dim = G('dimensions', [n - 1, 0][:1 + m % 2])
            go = lambda: po.convex_hull_method(A, b, dim)
        elif k == 'pnnls':
            from pympc.optimization.solvers.pnnls import pnnls
            A, B, c = G('A', arr(n + m, n)), G('B', arr(n + m, 2)), G('c', arr(n + m))
            go = lambda: pnnls(A, B, c)
        elif k == 'statemat':
            import sympy as sp
            x, u = G('x', sp.Matrix(sp.symbols('x0:%d' % n))), G('u', sp.Matrix(sp.symbols('u0:2')))
            e = G('expression', sp.Matrix(np.round(pool[:n * n], 2).reshape(n, n).tolist()) * x + sp.Matrix(np.round(pool[-2 * n:], 2).reshape(n, 2).tolist()) * u)
            go = lambda: ds.get_state_transition_matrices(x, u, e)
        elif k == 'condseq':
            S = [ds.AffineSystem(G('A', arr(n, n)), G('B', arr(n, 1)), G('c', arr(n))) for _ in range(2)]
            G('systems', S)
            seq = G('modes', [int(v > 0) for v in op['v'][:m]])
            go = lambda: ds.condense_pwa_system(S, seq)
        return k, go, None

    # plants and controllers ----------------------------------------------------------------------
    def do_make(self, op):
        from pympc.geometry.polyhedron import Polyhedron
        from pympc.dynamics.discrete_time_systems import LinearSystem, AffineSystem, PieceWiseAffineSystem
        from pympc.control.controllers import ModelPredictiveController, HybridModelPredictiveController
        sp, o = op['spec'], op['o']
        G = lambda label, v: self.give('%s of %s' % (label, o), v)
        a = lambda k: G(k, np.array(sp[k], float))
        d = {'sp': sp, 'kind': op['kind']}
        if op['kind'] == 'lin':
            A, B, Q, R = a('A'), a('B'), a('Q'), a('R')
            xlo, xhi, ulo, uhi = a('xlo'), a('xhi'), a('ulo'), a('uhi')
            mA, mb = (a('mixA'), a('mixb')) if sp['mixA'] else (None, None)

            def go():
                d['S'] = LinearSystem(A, B) if sp['ct'] is None else LinearSystem.from_continuous(A, B, sp['ct']['h'], sp['ct']['method'])
                X, U = Polyhedron.from_bounds(xlo, xhi), Polyhedron.from_bounds(ulo, uhi)
                D = X.cartesian_product(U)
                if mA is not None:
                    D.add_inequality(mA, mb)
                X, U, D = (G(t, v) for t, v in (('X', X), ('U', U), ('D', D)))
                d['D'] = D
                d['P'], d['K'] = d['S'].solve_dare(Q, R)
                G('P', d['P'])
                G('K', d['K'])
                d['XN'] = d['S'].mcais(d['K'], D)
                G('terminal set', d['XN'])
                G('the system', d['S'])
                d['Q'], d['R'] = Q, R
                d['mpc'] = ModelPredictiveController(d['S'], sp['N'], Q, R, d['P'], D, d['XN'])
                G('the controller', d['mpc'])
                return d
        else:
            from sim.hybrid import Hybrid
            Q, R, P = a('Q'), a('R'), a('P')
            tlo, thi = a('tlo'), a('thi')
            H = Hybrid.__new__(Hybrid)
            mats = [[G('%s of mode %d' % (k, i), np.array(m[k], float)) for k in ('A', 'B', 'c')] for i, m in enumerate(sp['modes'])]
            doms = domains(sp)
            doms = [(G('domain rows', F), G('domain bounds', h)) for F, h in doms]

            def go():
                S = [LinearSystem(m[0], m[1]) if sp['linear0'] and not np.any(m[2]) else AffineSystem(*m) for i, m in enumerate(mats)]
                D = [Polyhedron(F, h) for F, h in doms]
                G('list of systems', S)
                G('list of domains', D)
                d['S'] = PieceWiseAffineSystem(S, D)
                G('the system', d['S'])
                XN = G('terminal set', Polyhedron.from_bounds(tlo, thi))
                d['mpc'] = HybridModelPredictiveController(d['S'], sp['N'], Q, R, P, XN)
                G('the controller', d['mpc'])
                return d

        def fin(v):
            self.plants[o] = d
        return 'make-' + op['kind'], go, fin

    def do_ask(self, op):
        o, q = op['o'], op['q']
        if o not in self.plants:
            return None
        L = self.plants[o]
        sp, S, mpc = L['sp'], L['S'], L['mpc']
        nx, nu = sp['nx'], sp['nu']
        G = lambda label, v: self.give('%s given to %s' % (label, q), v)
        x = G('x', np.array(op['z'][:nx]) * .4)
        us = G('u', [np.array(v, float)[:nu] for v in op['u']])

        def fig(f):
            def go():
                import matplotlib.pyplot as plt
                try:
                    f()
                finally:
                    plt.close('all')
            return go
        if q in ('ffe', 'fbe', 'partition', 'value', 'parts', 'region', 'store') and (nx > 2 or sp['N'] * nu > 3):
            return None
        if q in ('ffe', 'fbe', 'partition', 'value', 'region') and mpc.explicit_solution is None:
            q = 'store'
        if q in ('partition', 'value') and nx != 2:
            q = 'ffe'
        if q == 'ff':
            go = lambda: mpc.feedforward(x)
        elif q == 'fb':
            go = lambda: mpc.feedback(x)
        elif q == 'sim':
            go = lambda: S.simulate(x, us)
        elif q == 'simcl':
            go = lambda: S.simulate_closed_loop(x, op['n'], L['K'])
        elif q == 'condense':
            go = lambda: S.condense(op['n'])
        elif q == 'dare':
            go = lambda: S.solve_dare(L['Q'], L['R'])
        elif q == 'mcais':
            go = lambda: S.mcais(L['K'], L['D'])
        elif q == 'store':
            def go():
                mpc.store_explicit_solution()
                return mpc.explicit_solution
        elif q == 'ffe':
            go = lambda: mpc.feedforward_explicit(x)
        elif q == 'fbe':
            go = lambda: mpc.feedback_explicit(x)
        elif q == 'centers':
            if mpc.explicit_solution is None:
                return None
            es = G('the table', mpc.explicit_solution)
            crs = es.critical_regions
            cr = crs[op['n'] % len(crs)]
            go = lambda: (cr.minimal_facets(), [cr.facet_center(i) for i in cr.minimal_facets()], es.p(x), cr.polyhedron.vertices, cr.polyhedron.center)
        elif q == 'region':
            def go():
                cr = mpc.explicit_solution.get_critical_region(x)
                return None if cr is None else (cr.active_set, cr.u(x), cr.p(x), cr.V(x), cr.minimal_facets())
        elif q == 'parts':
            guess = G('active set', [])
            sol = mpc.mpqp.solve(x)
            act = G('found active set', list(sol['active_set'] or [])[::-1] if op['n'] % 2 else list(sol['active_set'] or []))
            G('the solution', sol)

            def go():
                mpc.mpqp.explicit_solve_given_active_set(act)
                mpc.mpqp.explicit_solve_given_point(x, act, op['n'] == 3)
                return mpc.mpqp.explicit_solve_given_point(x), mpc.mpqp.explicit_solve_given_active_set(guess), mpc.mpqp.solve(x)
        elif q == 'partition':
            go = fig(lambda: mpc.plot_state_space_partition(print_active_set=True))
        elif q == 'value':
            go = fig(lambda: mpc.plot_optimal_value_function(resolution=4))
            op = dict(op, bad=True)
        elif q == 'feasible':
            if nx > 2 or sp['N'] * nu > 2:
                return None
            go = lambda: mpc.mpqp.get_feasible_set()
        elif q == 'hff':
            go = lambda: mpc.feedforward(x)
        elif q == 'hfb':
            go = lambda: mpc.feedback(x)
        elif q == 'hsim':
            go = lambda: S.simulate(x, us)
        elif q == 'hcondense':
            seq = G('modes', [m % sp['nm'] for m in op['w']])
            go = lambda: S.condense(seq)
        elif q == 'hmode':
            go = lambda: S.get_mode(x, us[0])
        elif q == 'hposed':
            go = lambda: S.is_well_posed()
        elif q == 'hocp':
            from pympc.control.controllers import condense_optimal_control_problem
            seq = G('modes', [m % sp['nm'] for m in (op['w'] * 4)[:sp['N']]])
            go = lambda: condense_optimal_control_problem(S, mpc.Q, mpc.R, mpc.P, mpc.X_N, seq).solve(x)
        elif q == 'hmiqp':
            go = lambda: mpc.mpmiqp.solve(x)
        elif q == 'hmpqp':
            seq = G('modes', [m % sp['nm'] for m in (op['w'] * 4)[:sp['N']]])
            go = lambda: mpc.get_mpqp(seq).solve(x)
        else:
            return None
        return q, go, None


def execute(sc, ctx):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        s = Iso(ctx)
        for i, op in enumerate(sc['ops']):
            s.run(i, op)
        if s.done >= 5 and (len(s.families) > 1 or s.hit):
            ctx.nontrivial = True
