"""Random plants and controllers: JSON specifications, reference matrices, construction through pympc."""
import numpy as np

from sim.core import Violation
from sim.ref import RefPoly, lp, qp, qp_margin, ocp_uncondensed, expm_taylor
from sim.seams import SEAM, SimStop, Injected


def rnd(rng, lo, hi, nd=3):
    return round(rng.uniform(lo, hi), nd)


def spec_linear(rng, nx=None, nu=None, N=None, term=None, small=False, wide=False):
    """A controllable linear plant with box and mixed constraints around the origin."""
    nx = nx or rng.choice([1, 2, 2, 2, 3, 3, 4])
    if wide and nu is None and rng.random() < .06:
        nu = 3
    if wide and N is None and rng.random() < .05:
        N = rng.choice([12, 15, 20])
    nu = nu or (1 if rng.random() < .7 else rng.randint(1, 2))
    ct = None
    kind = rng.random()
    if kind < .3 and nx == 2:
        h = rng.choice([.1, .2, .5])
        A = [[0., 1.], [rnd(rng, -2., 2.), rnd(rng, -1., .5)]] if rng.random() < .7 else [[0., 1.], [0., 0.]]
        B = [[0.] * nu, [rnd(rng, .5, 1.5) for _ in range(nu)]]
        ct = {'h': h, 'method': rng.choice(['zero_order_hold', 'zero_order_hold', 'explicit_euler'])}
    else:
        while True:
            M = np.array([[rng.gauss(0, 1) for _ in range(nx)] for _ in range(nx)])
            rho = max(abs(np.linalg.eigvals(M)))
            if rho > .1:
                break
        M = M / rho * rng.uniform(.4, 1.25)
        if wide and nx > 1 and rng.random() < .12:
            # a dynamics that forgets: a chain of delays, or a state that copies another one
            M = np.eye(nx, k=1) * rng.choice([1., .8]) if rng.random() < .5 else np.vstack((M[:-1], np.eye(nx)[:1]))
            if rng.random() < .5:
                M[-1] = 0.
        A = np.round(M, 3).tolist()
        B = [[rnd(rng, -1., 1.) for _ in range(nu)] for _ in range(nx)]
    sp = {'A': A, 'B': B, 'ct': ct, 'nx': nx, 'nu': nu,
          'Q': np.diag([rnd(rng, .2, 2.) for _ in range(nx)]).tolist(),
          'R': np.diag([rnd(rng, .2, 2.) for _ in range(nu)]).tolist(),
          'xlo': [rnd(rng, -6., -1.) for _ in range(nx)], 'xhi': [rnd(rng, 1., 6.) for _ in range(nx)],
          'ulo': [rnd(rng, -2., -.5) for _ in range(nu)], 'uhi': [rnd(rng, .5, 2.) for _ in range(nu)],
          'mixA': [], 'mixb': [], 'N': N or (rng.randint(1, 4) if small else rng.choice([1, 2, 3, 4, 5, 6, 7, 8, 10]))}
    for _ in range(rng.choice([0, 0, 1, 2])):
        sp['mixA'].append([rnd(rng, -1., 1., 2) for _ in range(nx + nu)])
        sp['mixb'].append(rnd(rng, 1., 4.))
    if rng.random() < .3:
        # a full, not only diagonal, weight
        L = np.array([[rng.uniform(-.6, .6) for _ in range(nx)] for _ in range(nx)])
        sp['Q'] = np.round(np.array(sp['Q']) + L.dot(L.T), 3).tolist()
    if nu > 1 and rng.random() < .6:
        # inputs that cost less, or more, together
        k = rng.choice([-1., 1.]) * rng.uniform(.3, .8) * (sp['R'][0][0] * sp['R'][1][1]) ** .5
        sp['R'][0][1] = sp['R'][1][0] = round(k, 3)
    if term is not None and rng.random() < term and sp['N'] >= nx:
        # the plan has to end at the origin, which is said with equalities
        sp['term'] = 'origin'
        if nu == 2 and rng.random() < .5:
            sp['eq'] = [[rnd(rng, -.4, .4, 2) if rng.random() < .3 else 0. for _ in range(nx)] + [1., rng.choice([-1., 1.]) * rnd(rng, .3, 1.5, 2)]]
    return sp


def ref_matrices(sp):
    A, B = np.array(sp['A'], float), np.array(sp['B'], float)
    if sp['ct'] is None:
        return A, B
    h = sp['ct']['h']
    nx, nu = B.shape
    if sp['ct']['method'] == 'explicit_euler':
        return np.eye(nx) + h * A, h * B
    M = np.zeros((nx + nu, nx + nu))
    M[:nx, :nx], M[:nx, nx:] = A, B
    E = expm_taylor(M * h)
    return E[:nx, :nx], E[:nx, nx:]


def ref_domain(sp):
    nx, nu = sp['nx'], sp['nu']
    n = nx + nu
    I = np.eye(n)
    F = [I, -I]
    h = [np.array(sp['xhi'] + sp['uhi']), -np.array(sp['xlo'] + sp['ulo'])]
    if sp['mixA']:
        F.append(np.array(sp['mixA'], float))
        h.append(np.array(sp['mixb'], float))
    return np.vstack(F), np.concatenate(h)


def ref_dare(A, B, Q, R, iters=20000):
    """Value iteration."""
    P = Q.copy()
    for _ in range(iters):
        G = np.linalg.solve(R + B.T.dot(P).dot(B), B.T.dot(P).dot(A))
        P2 = Q + A.T.dot(P).dot(A) - A.T.dot(P).dot(B).dot(G)
        P2 = .5 * (P2 + P2.T)
        if np.max(np.abs(P2 - P)) < 1e-13 * (1 + np.max(np.abs(P2))):
            return P2, -G
        P = P2
    return None, None


def usable(sp):
    """The reference's opinion: controllable with margin, DARE well conditioned, modest decay time."""
    A, B = ref_matrices(sp)
    nx = sp['nx']
    C = np.hstack([np.linalg.matrix_power(A, i).dot(B) for i in range(nx)])
    s = np.linalg.svd(C, compute_uv=False)
    if s[-1] < 2e-2:
        return False
    P, K = ref_dare(A, B, np.array(sp['Q']), np.array(sp['R']))
    if P is None or np.max(np.abs(P)) > 200.:
        return False
    rho = max(abs(np.linalg.eigvals(A + B.dot(K))))
    return rho < .93


class Linear(object):
    """pympc objects built from a specification, and reference data."""

    def __init__(self, sp, run=None, mpc=True):
        """run(thunk) performs the library call (the caller may inject faults there)."""
        from pympc.geometry.polyhedron import Polyhedron
        from pympc.dynamics.discrete_time_systems import LinearSystem
        from pympc.control.controllers import ModelPredictiveController
        self.sp = sp
        run = run or (lambda f: f())
        self.nx, self.nu, self.N = sp['nx'], sp['nu'], sp['N']
        self.Q, self.R = np.array(sp['Q'], float), np.array(sp['R'], float)
        self.A, self.B = ref_matrices(sp)
        self.F, self.h = ref_domain(sp)

        def sys_():
            A, B = np.array(sp['A'], float), np.array(sp['B'], float)
            if sp['ct'] is None:
                return LinearSystem(A, B)
            return LinearSystem.from_continuous(A, B, sp['ct']['h'], sp['ct']['method'])
        self.S = run(sys_)
        self.S2 = run(sys_)           # the same system, not asked anything yet

        def dom():
            X = Polyhedron.from_bounds(np.array(sp['xlo']), np.array(sp['xhi']))
            U = Polyhedron.from_bounds(np.array(sp['ulo']), np.array(sp['uhi']))
            D = X.cartesian_product(U)
            if sp['mixA']:
                D.add_inequality(np.array(sp['mixA'], float), np.array(sp['mixb'], float))
            if sp.get('eq'):
                D.add_equality(np.array(sp['eq'], float), np.zeros(len(sp['eq'])))
            return D

        def term():
            if sp.get('term') != 'origin':
                return self.S.mcais(self.K, self.D)
            X = Polyhedron.from_bounds(np.array(sp['xlo']), np.array(sp['xhi']))
            X.add_equality(np.eye(self.nx), np.zeros(self.nx))
            return X
        self.D = run(dom)
        self.P, self.K = run(lambda: self.S.solve_dare(self.Q, self.R))
        self.XN = run(term)
        self.law = np.zeros((self.nu, self.nx)) if sp.get('term') == 'origin' else np.array(self.K, float)     # what follows a plan
        self.E = np.array(sp['eq'], float) if sp.get('eq') else np.zeros((0, self.nx + self.nu))
        self.mpc = run(lambda: ModelPredictiveController(self.S, self.N, self.Q, self.R, self.P, self.D, self.XN)) if mpc else None

    # reference ------------------------------------------------------------------------------
    def stage(self, x, u):
        return .5 * (x.dot(self.Q).dot(x) + u.dot(self.R).dot(u))

    def step(self, x, u):
        return self.A.dot(x) + self.B.dot(u)

    def violation(self, x, u):
        z = np.concatenate((x, u))
        return float(max(np.max(self.F.dot(z) - self.h), np.max(np.abs(self.E.dot(z))) if len(self.E) else -1.))

    def terminal(self):
        if self.sp.get('term') == 'origin':
            I = np.eye(self.nx)
            return np.vstack((I, -I)), np.concatenate((self.sp['xhi'], -np.array(self.sp['xlo']))), I, np.zeros(self.nx)
        return np.array(self.XN.A, float), np.array(self.XN.b, float)

    def program(self, x):
        N = self.N
        return ocp_uncondensed([(self.A, self.B, np.zeros(self.nx))] * N, [(self.F, self.h, self.E, np.zeros(len(self.E)))] * N,
                               self.terminal(), self.Q, self.R, np.array(self.P, float), x)

    def margin(self, x):
        (H, f, A, b, C, d), ix, iu = self.program(x)
        return qp_margin(A, b, C, d)

    def optimum(self, x):
        """('opt', V, plan) / ('inf',) / ('?',)"""
        (H, f, A, b, C, d), ix, iu = self.program(x)
        r = qp(H, f, A, b, C, d)
        if r[0] == 'opt':
            return ('opt', r[1], [r[2][iu(t)] for t in range(self.N)])
        return r

    def reach(self, d):
        """Largest s such that s d is feasible."""
        (H, f, A, b, C, c), ix, iu = self.program(np.zeros(self.nx))
        n = A.shape[1]
        # x0 = s d : append s
        A1 = np.column_stack((A, np.zeros(A.shape[0])))
        col = np.zeros(C.shape[0])
        col[:self.nx] = -np.asarray(d, float)
        C1 = np.column_stack((C, col))
        o = np.zeros(n + 1)
        o[-1] = -1.
        r = lp(o, A1, b, C1, c)
        return r[2][-1] if r[0] == 'opt' else None


def gen_linear(rng, **kw):
    while True:
        sp = spec_linear(rng, **kw)
        if sp['N'] > 10 and max(abs(np.linalg.eigvals(ref_matrices(sp)[0]))) ** sp['N'] > 100.:
            continue                   # condensing an unstable plant over a long horizon is hopeless numerically
        if usable(sp):
            return sp


def check_plan(L, x, u, V, ctx, tol=1e-5, known=None):
    """The plan the controller returned for state x is feasible, costs V and is optimal."""
    sc = 1. + np.max(np.abs(x))
    y, cost = np.array(x, float), 0.
    if len(u) != L.N:
        raise Violation('plan', 'the plan has %d inputs, the horizon is %d' % (len(u), L.N))
    for t in range(L.N):
        v = np.asarray(u[t], float)
        if v.shape != (L.nu,) or not np.all(np.isfinite(v)):
            raise Violation('plan', 'input %d of the plan is %s' % (t, v))
        g = L.violation(y, v)
        if g > tol * sc:
            raise Violation('plan-infeasible', 'step %d of the plan from %s violates the constraints by %s' % (t, x, g))
        cost += L.stage(y, v)
        y = L.step(y, v)
    T = L.terminal()
    g = float(max(np.max(T[0].dot(y) - T[1]), np.max(np.abs(T[2].dot(y) - T[3])) if len(T) > 2 else -1.))
    if g > tol * sc * 10:
        raise Violation('plan-infeasible', 'the plan from %s misses the terminal set by %s' % (x, g))
    cost += .5 * y.dot(np.array(L.P)).dot(y)
    if abs(cost - V) > 1e-5 * (1 + abs(cost)):
        raise Violation('plan-cost', 'the plan from %s costs %s, the controller says %s' % (x, cost, V))
    r = known or L.optimum(x)
    if r[0] == 'opt':
        if V > r[1] + 1e-4 * (1 + abs(r[1])):
            raise Violation('plan-suboptimal', 'the plan from %s costs %s, the optimum is %s' % (x, V, r[1]))
        if V < r[1] - 1e-4 * (1 + abs(r[1])):
            raise Violation('plan-cost', 'the plan from %s costs %s, below the optimum %s' % (x, V, r[1]))
        ctx.count('checked/optimal-plan')
