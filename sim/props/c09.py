"""C09: the stored explicit law and the online law are the same controller, at every state and through any failover."""
import copy
import warnings
import numpy as np

from sim.core import Violation
from sim.plants import gen_linear, Linear
from sim.ref import qp, qp_margin, lp
from sim.seams import SEAM, SimStop, place_fault
from sim.world import rnd, differs

ID = 'C09'
RUNS = {'quick': 1200, 'thorough': 8000}
TIME_UNIT = 'operations'
RULE = ('A run drives one controller (or one bare parametric program) through a seeded history: table synthesis, possibly killed by an '
        'injected failure, questions to the table and to the online solver at kicked and closed-loop states, solver outages with failover to '
        'the table. Non-trivial: at least three states were answered by a table and by the online solver.')
REAL = ['explicit_solve, critical regions, ExplicitSolution, store_explicit_solution, feedforward_explicit, feedback_explicit', 'mpQP solve, pnnls QP and LP, Polyhedron']
STUB = ['plant: simulator', 'reference optimum: gurobi matrix interface; feasibility: HiGHS']
ASSUMPTIONS = ['parameters in a bounded set that contains the origin (a scalar parameter may be unlimited)', 'a missing state is judged only when strictly inside a non-degenerate '
               'region (multipliers, slacks above 1e-3, condition of the active rows below 1e4)']


def generate(rng, tier):
    sc = {'ops': []}
    if rng.random() < .6:
        nx = rng.choice([1, 2, 2, 2, 2, 3])
        nu = 1 if nx == 3 or rng.random() < .65 else 2
        top = 2 if nx == 3 or nu == 2 else 4 if tier == 'quick' else 6
        sp = gen_linear(rng, nx=nx, nu=nu, N=rng.randint(1, top))
        sc.update(kind='mpc', plant=sp)
    else:
        nx, nu = rng.choice([1, 2, 2, 2, 3]), rng.choice([1, 2, 2, 3])
        G = np.array([[rng.gauss(0, 1) for _ in range(nx + nu)] for _ in range(nx + nu)])
        H = np.round(G.T.dot(G) * .3 + np.eye(nx + nu) * rng.choice([.3, 1.]), 3)
        H = .5 * (H + H.T)
        m = rng.randint(1, 6)
        Au, Ax, b = [], [], []
        for _ in range(m):
            Au.append([rnd(rng, -1., 1., 2) for _ in range(nu)])
            Ax.append([rnd(rng, -1., 1., 2) for _ in range(nx)])
            b.append(rnd(rng, .3, 2.))
        for i in range(nx if nx > 1 or rng.random() < .5 else 0):
            # (a scalar parameter may be unlimited)
            for s in (1., -1.):
                Au.append([0.] * nu)
                Ax.append([s if j == i else 0. for j in range(nx)])
                b.append(rnd(rng, 1., 3.))
        perm = list(range(len(b)))
        rng.shuffle(perm)
        off = rng.random() < .7
        sc.update(kind='mpqp', nx=nx, nu=nu, H=H.tolist(), f=[rnd(rng, -1., 1.) if off else 0. for _ in range(nx + nu)],
                  g=rnd(rng, -2., 2.) if off else 0., Au=[Au[i] for i in perm], Ax=[Ax[i] for i in perm], b=[b[i] for i in perm])

    def pt():
        return {'d': [round(rng.gauss(0, 1), 3) for _ in range(nx)], 's': rng.choice([.05, .3, .5, .7, .85, .95, .99, 1.02, 1.3])}

    def flt():
        return {'exc': rng.choice(['backend', 'interrupt', 'memory']), 'fs': round(rng.random(), 4), 'fo': round(rng.random(), 4)}
    if rng.random() < .2:
        sc['ops'].append({'op': 'ask', 'x': pt()})
    for _ in range(rng.choice([0, 0, 1, 2])):
        sc['ops'].append({'op': 'store', 'fault': flt()})
        if rng.random() < .5:
            sc['ops'].append({'op': 'ask', 'x': pt()})
    sc['ops'].append({'op': 'store', 'verbose': rng.random() < .1})
    for _ in range(rng.randint(6, 16)):
        u = rng.random()
        if u < .5:
            sc['ops'].append({'op': 'ask', 'x': pt()})
        elif u < .7:
            sc['ops'].append({'op': 'step', 'by': rng.choice(['table', 'online'])})
        elif u < .8:
            sc['ops'].append({'op': 'point', 'x': pt(), 'guess': [rng.randrange(1000) for _ in range(rng.randint(0, 2))] if rng.random() < .5 else None})
        elif u < .93:
            sc['ops'].append({'op': 'outage', 'x': pt(), 'fault': flt()})
        elif u < .96:
            sc['ops'].append({'op': rng.choice(['draw', 'partition', 'partition']), 'text': rng.random() < .4, 'xs': [pt() for _ in range(4)]})
        else:
            sc['ops'].append({'op': 'store', 'fault': flt()})
    return sc


class Subject(object):
    """One controller, or one bare parametric program, with the same questions."""

    def __init__(self, sc, run):
        self.sc, self.run = sc, run
        if sc['kind'] == 'mpc':
            self.L = Linear(sc['plant'], run)
            self.q = self.L.mpc.mpqp
            self.nx, self.nu = self.L.nx, self.L.nu
            self.table_ = lambda: self.L.mpc.explicit_solution
        else:
            from pympc.optimization.parametric_programs import MultiParametricQuadraticProgram
            nx, nu = sc['nx'], sc['nu']
            self.nx, self.nu = nx, nu
            M = np.array(sc['H'])
            f = np.array(sc['f'])
            self.q = run(lambda: MultiParametricQuadraticProgram(
                {'uu': M[:nu, :nu].copy(), 'ux': M[:nu, nu:].copy(), 'xx': M[nu:, nu:].copy()},
                {'u': f[:nu].copy(), 'x': f[nu:].copy()}, np.float64(sc['g']),
                {'u': np.array(sc['Au']), 'x': np.array(sc['Ax'])}, np.array(sc['b'])))
            self.L, self.t = None, None
            self.table_ = lambda: self.t

    def store(self, verbose):
        if self.L:
            self.L.mpc.store_explicit_solution(verbose=verbose)
        else:
            self.t = self.q.explicit_solve(verbose=verbose)

    def online(self, x):
        """(u stacked or None, V or None)"""
        if self.L:
            u, V = self.L.mpc.feedforward(x)
            return (None if u is None else np.concatenate(u)), V
        s = self.q.solve(x)
        return s['argmin'], s['min']

    def table(self, x):
        if self.L:
            u, V = self.L.mpc.feedforward_explicit(x)
            if u is not None and len(u) != self.L.N:
                raise Violation('table', 'the table returned %d inputs' % len(u))
            return (None if u is None else np.concatenate(u)), V
        return self.t.u(x), self.t.V(x)

    # reference -----------------------------------------------------------------------------
    def reach(self, d):
        if self.L:
            return self.L.reach(d)
        Au, Ax, b = np.array(self.sc['Au']), np.array(self.sc['Ax']), np.array(self.sc['b'])
        c = np.zeros(self.nu + 1)
        c[-1] = -1.
        r = lp(c, np.vstack((np.column_stack((Au, Ax.dot(d))), -c)), np.concatenate((b, [5.])))
        return -r[1] if r[0] == 'opt' else None

    def margin(self, x):
        if self.L:
            return self.L.margin(x)
        return qp_margin(np.array(self.sc['Au']), np.array(self.sc['b']) - np.array(self.sc['Ax']).dot(x))

    def optimum(self, x):
        if self.L:
            return self.L.optimum(x)
        n = self.nu
        H, f = np.array(self.sc['H']), np.array(self.sc['f'])
        r = qp(H[:n, :n], H[:n, n:].dot(x) + f[:n], np.array(self.sc['Au']), np.array(self.sc['b']) - np.array(self.sc['Ax']).dot(x))
        if r[0] == 'opt':
            return ('opt', r[1] + .5 * x.dot(H[n:, n:]).dot(x) + f[n:].dot(x) + self.sc['g'], r[2])
        return r


def execute(sc, ctx):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        _execute(sc, ctx)


BUDGET = 40000000


def _execute(sc, ctx):
    def run(f):
        st, v = SEAM.run(f, budget=6000000, rng=1)
        if st == 'exc':
            if isinstance(v, SimStop):
                raise Violation('no-progress', 'building did not end within its step budget')
            raise Violation('crash', 'building raised %r' % v)
        return v
    S = Subject(sc, run)
    ctx.mark(sc['kind'], S.nx, S.nu)
    q = S.q
    data = [q.H, q.f, np.array(q.g), q.A, q.b]
    snap = copy.deepcopy(data)
    x = None
    answered = 0
    stored = None        # the table in force

    def place(p):
        d = np.array(p['d'], float)
        n = np.linalg.norm(d)
        if n < 1e-3:
            return None
        s = S.reach(d)
        return None if s is None or s < 1e-3 else p['s'] * s * d

    def table(x):
        st, v = SEAM.run(lambda: S.table(x), rng=1)
        if st == 'exc':
            raise v if isinstance(v, Violation) else Violation('crash', 'the table raised %r at %s' % (v, x))
        return v

    def online(x, fault=None):
        st, v = SEAM.run(lambda: S.online(x), rng=1, fault=fault)
        if st == 'exc':
            if SEAM.fired:
                return None
            raise Violation('crash', 'the online solver raised %r at %s' % (v, x))
        return v

    for i, op in enumerate(sc['ops']):
        k = op['op']
        ctx.simtime += 1
        if k == 'store':
            f = op.get('fault')
            if f and 'k' not in f:
                tr = []
                T = copy.copy(S)
                if S.L:
                    T.L = copy.copy(S.L)
                    T.L.mpc = copy.copy(S.L.mpc)
                SEAM.run(lambda: T.store(False), trace=tr, rng=1, budget=int(40000 * 100 ** f['fo']))     # how deep into the synthesis
                f['k'] = place_fault(tr, f['fs'], f['fo']) or 0
            fault = {'k': f['k'], 'exc': f['exc']} if f and f['k'] else None
            st, v = SEAM.run(lambda: S.store(bool(op.get('verbose'))), fault=fault, rng=1, budget=BUDGET)
            ctx.log(i, 'store', st)
            if SEAM.fired:
                ctx.mark('fault', SEAM.fired['site'], SEAM.fired['callee'])
            if st == 'exc':
                if isinstance(v, SimStop):
                    raise Violation('no-progress', 'the synthesis of the table did not end within its step budget')
                if not SEAM.fired:
                    raise Violation('crash', 'the synthesis of the table raised %r' % v)
                if S.table_() is not stored:
                    raise Violation('half-table', 'a failed synthesis replaced the table')
            else:
                stored = S.table_()
                if stored is None:
                    raise Violation('table', 'the synthesis stored nothing')
                ctx.count('regions', len(stored.critical_regions))
            why = differs(data, snap)
            if why:
                raise Violation('altered', 'the synthesis changed the program: %s' % why)
            continue
        if k in ('draw', 'partition') and S.L and (S.nx != 2 or stored is None):
            st, v = SEAM.run(lambda: (S.L.mpc.plot_optimal_value_function if k == 'draw' else S.L.mpc.plot_state_space_partition)(), rng=1, budget=BUDGET)
            if st == 'ok' or not isinstance(v, ValueError):
                raise Violation('accepted', 'a picture %s was answered with %r' % ('of %d states' % S.nx if S.nx != 2 else 'without a table', v))
            ctx.count('refused')
            continue
        if k == 'partition':
            if S.L:
                partition(S, ctx, stored, op, [y for y in map(place, op['xs']) if y is not None])
            continue
        if k == 'draw':
            if S.L and S.nx == 2 and stored is not None and len(sc['plant']['uhi']) * S.L.N <= 3:
                draw(S, ctx)
            continue
        if k == 'step':
            if x is None or not S.L or stored is None:
                continue
            u, V = table(x) if op['by'] == 'table' else online(x)
            if u is None:
                continue
            x = S.L.step(x, np.asarray(u, float)[:S.nu])
        else:
            x = place(op['x'])
            if x is None:
                continue
        if k == 'outage':
            f = op['fault']
            if 'k' not in f:
                tr = []
                SEAM.run(lambda: S.online(x), trace=tr, rng=1)
                f['k'] = place_fault(tr, f['fs'], f['fo']) or 0
            online(x, {'k': f['k'], 'exc': f['exc']} if f['k'] else None)
            ctx.count('failover')
        ctx.mark(k)
        if stored is None:
            # no table yet: the controller must say so, and the online law must work
            if S.L:
                st, v = SEAM.run(lambda: S.L.mpc.feedforward_explicit(x), rng=1)
                if st == 'ok':
                    raise Violation('table', 'an answer without a table: %r' % (v,))
            compare(S, ctx, x, None, online(x), i)
            continue
        if k == 'point':
            g = op['guess']
            m = S.margin(x)
            guess = None if g is None else sorted({v % q.b.size for v in g})
            st, cr = SEAM.run(lambda: q.explicit_solve_given_point(x, guess), rng=1)
            if st == 'exc':
                raise Violation('crash', 'the region of %s raised %r' % (x, cr))
            if cr is None:
                if inside(S, x, m):
                    raise Violation('hole', 'no region at the feasible state %s (margin %s)' % (x, m))
                continue
            if m is not None and m < -1e-5:
                raise Violation('table', 'a region for the infeasible state %s' % x)
            if cr.contains(x):
                compare(S, ctx, x, (np.asarray(cr.u(x)), cr.V(x)), None, i, np.asarray(cr.p(x)))
            continue
        st, p = SEAM.run(lambda: stored.p(x), rng=1)
        if st == 'exc':
            raise Violation('crash', 'the multipliers of the table raised %r' % p)
        t = table(x)
        compare(S, ctx, x, t, online(x), i, p)
        if S.L:
            st, fb = SEAM.run(lambda: S.L.mpc.feedback_explicit(x), rng=1)
            if st == 'exc' or (fb is None) != (t[0] is None) or fb is not None and (np.shape(fb) != (S.nu,) or np.max(np.abs(np.asarray(fb) - t[0][:S.nu])) > 1e-7):
                raise Violation('feedback', 'the table\'s feedback is %r, its plan starts with %s' % (fb, t[0]))
        answered += t[0] is not None
    if answered >= 3:
        ctx.nontrivial = True


def draw(S, ctx):
    """The picture of the value function shows the value function."""
    import matplotlib.pyplot as plt
    seen, real = [], plt.contour

    def contour(*a, **k):
        seen.append([np.array(v, dtype=float) for v in a[:3]])
        return real(*a, **k)
    plt.contour = contour
    try:
        st, v = SEAM.run(lambda: S.L.mpc.plot_optimal_value_function(resolution=5), rng=1, budget=BUDGET)
    finally:
        plt.contour = real
        plt.close('all')
    if st == 'exc':
        if type(v).__name__ == 'QhullError':
            return
        raise Violation('crash', 'drawing the value function raised %r' % v)
    ctx.count('drawn')
    for d in ([1., 0.], [0., 1.], [-1., 0.], [0., -1.]):
        # the picture covers the feasible states
        A = np.hstack((S.q.A['x'], S.q.A['u']))
        r = lp(-np.concatenate((d, np.zeros(A.shape[1] - 2))), A, S.q.b)
        if r[0] == 'opt' and seen:
            got = max(float(np.max(d[0] * X + d[1] * Y)) for X, Y, Z in seen)
            if abs(got + r[1]) > 1e-4 * (1 + abs(r[1])):
                raise Violation('table', 'the picture ends at %s along %s, the feasible states at %s' % (got, d, -r[1]))
    for X, Y, Z in seen:
        for a, b, V in zip(X.ravel(), Y.ravel(), Z.ravel()):
            x = np.array([a, b])
            m = S.margin(x)
            if np.isnan(V):
                if inside(S, x, m):
                    raise Violation('hole', 'the picture has no value at the feasible state %s' % x)
            elif m is not None and m > 1e-5:
                r = S.optimum(x)
                if r[0] == 'opt' and abs(r[1] - V) > 1e-4 * (1 + abs(r[1])):
                    raise Violation('table', 'the picture shows %s at %s, the optimum is %s' % (V, x, r[1]))


def partition(S, ctx, table, op, xs):
    """The picture of the partition shows the regions."""
    import matplotlib.pyplot as plt
    plt.close('all')
    try:
        st, v = SEAM.run(lambda: S.L.mpc.plot_state_space_partition(print_active_set=bool(op.get('text'))), rng=1, budget=BUDGET)
        if st == 'exc':
            if type(v).__name__ == 'QhullError':
                return
            raise Violation('crash', 'drawing the partition raised %r' % v)
        ax = plt.gca()
        drawn = [q.get_patch_transform().transform_path(q.get_path()) for q in ax.patches]
        words = [(t.get_text(), np.array(t.get_position(), float)) for t in ax.texts]
    finally:
        plt.close('all')
    ctx.count('drawn')
    for x in xs:
        m = S.margin(x)
        n = sum(bool(q.contains_point(x)) for q in drawn)
        if m is not None and m < -1e-4 and n:
            raise Violation('table', 'the picture has a region at the infeasible state %s' % x)
        if inside(S, x, m, 1e-2) and n == 0:
            raise Violation('hole', 'the picture has no region at the feasible state %s' % x)
    if op.get('text'):
        if sorted(t for t, _ in words) != sorted(str(r.active_set) for r in table.critical_regions):
            raise Violation('table', 'the picture names the active sets %s, the table has %s' % ([t for t, _ in words], [r.active_set for r in table.critical_regions]))
        for r in table.critical_regions:
            for t, y in words:
                if t == str(r.active_set) and S.table(y)[0] is not None and not r.polyhedron.contains(y, 1e-4):
                    raise Violation('table', 'the active set %s is written at %s, outside its region' % (t, y))


def inside(S, x, m, eps=1e-3):
    """x is strictly inside a non-degenerate region: the reference's opinion."""
    if m is None or m < eps:
        return False
    q, sc = S.q, S.sc
    Au, Ax, b = np.array(q.A['u'], float), np.array(q.A['x'], float), np.array(q.b, float)
    Huu, f = np.array(q.H['uu'], float), np.array(q.H['ux'], float).dot(x) + np.array(q.f['u'], float)
    r = qp(Huu, f, Au, b - Ax.dot(x))
    if r[0] != 'opt':
        return False
    u = r[2]
    sl = b - Ax.dot(x) - Au.dot(u)
    act = np.where(sl < eps)[0]
    if np.any(sl[act] > 1e-5):
        return False
    if len(act):
        M = Au[act]
        s = np.linalg.svd(M, compute_uv=False)
        if len(act) > M.shape[1] or s[-1] < 1e-2:
            return False
        p = np.linalg.lstsq(M.T, -(Huu.dot(u) + f), rcond=None)[0]
        if np.min(p) < eps:
            return False
    return True


def compare(S, ctx, x, t, o, i, p=None):
    """t, o: answers (u, V) of the table and of the online solver, or None if not asked."""
    m = S.margin(x)
    if m is None:
        return
    sc = 1. + float(np.max(np.abs(x)))
    for name, a in (('table', t), ('online', o)):
        if a is None:
            continue
        u, V = a
        if (u is None) != (V is None):
            raise Violation(name, 'at %s the %s answers u = %s and V = %s' % (x, name, u, V))
        if u is not None and m < -1e-5 * sc:
            raise Violation(name, 'the %s answers at %s, infeasible by %s' % (name, x, m))
    if o is not None and o[0] is None and m > 1e-6:
        raise Violation('online', 'the online solver has no answer at %s, feasible with margin %s' % (x, m))
    if t is not None and t[0] is None and m > 0:
        if inside(S, x, m):
            raise Violation('hole', 'the table has no answer at %s, feasible with margin %s' % (x, m))
        ctx.count('uncovered-not-judged')
    got = [(n, a) for n, a in (('table', t), ('online', o)) if a is not None and a[0] is not None]
    if not got:
        return
    r = S.optimum(x)
    if r[0] != 'opt':
        return
    for name, (u, V) in got:
        if abs(V - r[1]) > 1e-4 * (1 + abs(r[1])):
            raise Violation(name, 'at %s the %s says V = %s, the optimum is %s' % (x, name, V, r[1]))
        want = np.concatenate(r[2]) if S.L else r[2]
        u = np.asarray(u, float)
        if u.shape != want.shape or not np.all(np.isfinite(u)):
            raise Violation(name, 'at %s the %s answers %s' % (x, name, u))
        if np.max(np.abs(u - want)) > 2e-3 * sc:
            raise Violation(name, 'at %s the %s answers u = %s, the optimum is %s' % (x, name, u, want))
        ctx.count('checked/' + name)
    if len(got) == 2:
        (_, (u, V)), (_, (w, W)) = got
        if np.max(np.abs(np.asarray(u) - np.asarray(w))) > 1e-5 * sc or abs(V - W) > 1e-5 * (1 + abs(V)):
            raise Violation('disagree', 'at %s the table says %s (V = %s), online %s (V = %s)' % (x, u, V, w, W))
        ctx.count('checked/agree')
    if p is not None and t is not None and t[0] is not None:
        q = S.q
        u = np.asarray(t[0], float)
        p = np.asarray(p, float)
        if p.shape != (q.b.size,):
            raise Violation('multipliers', 'multipliers with shape %s' % (p.shape,))
        st = q.H['uu'].dot(u) + q.H['ux'].dot(x) + q.f['u'] + q.A['u'].T.dot(p)
        sl = q.b - q.A['x'].dot(x) - q.A['u'].dot(u)
        big = 1. + np.max(np.abs(p))
        if np.max(np.abs(st)) > 1e-5 * big or np.min(p) < -1e-5 * big or np.max(np.abs(p * sl)) > 1e-4 * big or np.min(sl) < -1e-5 * sc:
            raise Violation('multipliers', 'at %s the table\'s multipliers %s do not prove optimality (stationarity %s, slacks %s)' % (x, p, np.max(np.abs(st)), sl))
        ctx.count('checked/multipliers')
