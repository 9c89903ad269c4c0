"""Random piecewise-affine plants with hybrid controllers, and their enumeration reference."""
import itertools
import numpy as np

from sim.ref import RefPoly, lp, qp, qp_margin, ocp_uncondensed
from sim.world import rnd


def spec_pwa(rng, tier='quick', nm=None, N=None, nx=None, eq=0.):
    nx = nx or rng.choice([1, 2, 2, 2, 3])
    useeq = rng.random() < eq
    nu = 1 if rng.random() < (.4 if useeq else .8) else 2
    nm = nm or (rng.choice([1, 2, 2, 2, 2, 2, 3, 3, 4]) if eq else rng.choice([2, 2, 2, 3]))
    sp = {'nx': nx, 'nu': nu, 'nm': nm,
          'xlo': [rnd(rng, -5., -1.5) for _ in range(nx)], 'xhi': [rnd(rng, 1.5, 5.) for _ in range(nx)],
          'ulo': [rnd(rng, -2., -.6) for _ in range(nu)], 'uhi': [rnd(rng, .6, 2.) for _ in range(nu)]}
    # parallel cuts of the box along one direction of the state(-input) space
    a = [0.] * (nx + nu)
    if rng.random() < .6:
        a[rng.randrange(nx)] = 1.
    else:
        a = [rnd(rng, -1., 1., 2) for _ in range(nx)] + [rnd(rng, -.5, .5, 2) if rng.random() < .4 else 0. for _ in range(nu)]
        if max(abs(v) for v in a[:nx]) < .3:
            a[0] = 1.
    w = 1.2 * sum(abs(v) for v in a[:nx])
    cuts = sorted(rnd(rng, -w, w, 2) for _ in range(nm - 1))
    if nm == 3 and cuts[1] - cuts[0] < .3:
        # keep the domains non-empty: both cuts stay within the box
        d = min(.25, .2 * w)
        m = min(max(sum(cuts) / 2, -w + d), w - d)
        cuts = [round(m - d, 2), round(m + d, 2)]
    elif nm > 3:
        cuts = [round((-.8 + 1.6 * k / (nm - 2.)) * w, 2) for k in range(nm - 1)]
    elif nm == 2 and rng.random() < .2:
        cuts = [0.]
    sp['a'], sp['cuts'] = a, cuts
    sp['modes'] = []
    base = np.array([[rng.gauss(0, 1) for _ in range(nx)] for _ in range(nx)])
    base = base / max(.1, max(abs(np.linalg.eigvals(base)))) * rng.uniform(.4, 1.1)
    for i in range(nm):
        M = base + np.array([[rng.gauss(0, .25) for _ in range(nx)] for _ in range(nx)])
        sp['modes'].append({'A': np.round(M, 3).tolist(), 'B': [[rnd(rng, -1., 1.) for _ in range(nu)] for _ in range(nx)],
                            'c': [rnd(rng, -.5, .5) if rng.random() < .6 else 0. for _ in range(nx)]})
    if rng.random() < .15:
        # the origin is an equilibrium of every mode
        for m in sp['modes']:
            m['c'] = [0.] * nx
    sp['linear0'] = rng.random() < .2
    if sp['linear0']:
        sp['modes'][0]['c'] = [0.] * nx
    sp['Q'] = np.diag([rnd(rng, .2, 2.) for _ in range(nx)]).tolist()
    sp['R'] = np.diag([rnd(rng, .2, 2.) for _ in range(nu)]).tolist()
    sp['P'] = np.diag([rnd(rng, .2, 3.) for _ in range(nx)]).tolist()
    if rng.random() < .3:
        G = np.array([[rng.uniform(-.6, .6) for _ in range(nx)] for _ in range(nx)])
        sp['P'] = np.round(np.array(sp['P']) + G.dot(G.T), 3).tolist()
    if rng.random() < .3:
        L = np.array([[rng.uniform(-.6, .6) for _ in range(nx)] for _ in range(nx)])
        sp['Q'] = np.round(np.array(sp['Q']) + L.dot(L.T), 3).tolist()
    if nu > 1 and rng.random() < .5:
        k = rng.choice([-1., 1.]) * rng.uniform(.3, .8) * (sp['R'][0][0] * sp['R'][1][1]) ** .5
        sp['R'][0][1] = sp['R'][1][0] = round(k, 3)
    if rng.random() < .4:
        sp['perm'] = rng.sample(range(nm), nm)
    if rng.random() < .4:
        # every mode has limits of its own (the domains need not cover the box)
        sp['extra'] = [[] for _ in range(nm)]
        for m in range(nm):
            for _ in range(rng.choice([0, 1, 1, 2])):
                sp['extra'][m].append([[rnd(rng, -1., 1., 2) for _ in range(nx + nu)] if rng.random() < .5 else
                                       [rng.choice([-1., 1.]) if j == m % (nx + nu) else 0. for j in range(nx + nu)], rnd(rng, .3, 3.)])
                D = domains(sp)[m]
                if (qp_margin(D[0], D[1], np.zeros((0, nx + nu)), np.zeros(0)) or 0.) < .1:
                    sp['extra'][m].pop()
    sp['N'] = N or rng.choice([1, 2, 2, 3, 3, 4] if nm <= 2 else [1, 2, 2, 3] if nm == 3 else [1, 2, 2])
    k = rng.choice([.6, .9, 1.])
    sp['tlo'], sp['thi'] = [round(v * k, 3) for v in sp['xlo']], [round(v * k, 3) for v in sp['xhi']]
    if useeq:
        # part of the terminal set or of the domains is said with equalities
        if nu == 2 and rng.random() < .6:
            sp['deq'] = [[0.] * nx + [1., rng.choice([-1., 1.]) * rnd(rng, .3, 1.5, 2)]]
            if nm > 1 and rng.random() < .4:
                sp['deqm'] = rng.randrange(nm)
        if not sp.get('deq') or rng.random() < .5:
            a = [rnd(rng, -1., 1., 2) for _ in range(nx)]
            a[rng.randrange(nx)] = 1.
            sp['teq'] = [a]
            sp['teqv'] = [rnd(rng, -.6, .6, 2)]
    return sp


def domains(sp):
    """The rows of every mode's domain, in the order of the modes."""
    n = sp['nx'] + sp['nu']
    I = np.eye(n)
    F, h = np.vstack((I, -I)), np.concatenate((sp['xhi'], sp['uhi'], -np.array(sp['xlo'] + sp['ulo'])))
    a = np.array(sp['a'])
    out = []
    for m in range(sp['nm']):
        i = sp['perm'][m] if sp.get('perm') else m
        G, g = [F], [h]
        if i < sp['nm'] - 1:
            G.append(a[None, :])
            g.append([sp['cuts'][i]])
        if i > 0:
            G.append(-a[None, :])
            g.append([-sp['cuts'][i - 1]])
        if sp.get('extra') and sp['extra'][m]:
            G.append(np.array([r[0] for r in sp['extra'][m]]))
            g.append([r[1] for r in sp['extra'][m]])
        D = (np.vstack(G), np.concatenate(g))
        if sp.get('deq') and sp.get('deqm', m) == m:
            D += (np.array(sp['deq']), np.zeros(len(sp['deq'])))
        out.append(D)
    return out


class Hybrid(object):

    def __init__(self, sp, run=None):
        from pympc.geometry.polyhedron import Polyhedron
        from pympc.dynamics.discrete_time_systems import AffineSystem, LinearSystem, PieceWiseAffineSystem
        from pympc.control.controllers import HybridModelPredictiveController
        run = run or (lambda f: f())
        self.sp = sp
        self.nx, self.nu, self.nm, self.N = sp['nx'], sp['nu'], sp['nm'], sp['N']
        self.Q, self.R, self.P = np.array(sp['Q']), np.array(sp['R']), np.array(sp['P'])
        self.mats = [(np.array(m['A']), np.array(m['B']), np.array(m['c'])) for m in sp['modes']]
        self.doms = domains(sp)
        J = np.eye(self.nx)
        self.XN = (np.vstack((J, -J)), np.concatenate((sp['thi'], -np.array(sp['tlo']))))
        if sp.get('teq'):
            self.XN += (np.array(sp['teq']), np.array(sp['teqv']))

        self.ok = all((qp_margin(*self.full(D)) or 0.) > .05 for D in self.doms)
        if not self.ok and sp.get('deq'):
            return

        def systems():
            S = []
            for i, (A, B, c) in enumerate(self.mats):
                S.append(LinearSystem(A.copy(), B.copy()) if sp['linear0'] and not np.any(c) else AffineSystem(A.copy(), B.copy(), c.copy()))
            D = [Polyhedron(*[a.copy() for a in d]) for d in self.doms]
            return PieceWiseAffineSystem(S, D)
        self.S = run(systems)

        def term():
            X = Polyhedron.from_bounds(np.array(sp['tlo']), np.array(sp['thi']))
            if sp.get('teq'):
                X.add_equality(np.array(sp['teq']), np.array(sp['teqv']))
            return X
        self.XNp = run(term)
        self.mpc = run(lambda: HybridModelPredictiveController(self.S, self.N, self.Q.copy(), self.R.copy(), self.P.copy(), self.XNp))
        self._best = {}

    # reference -------------------------------------------------------------------------------
    def usable(self):
        return self.ok

    def full(self, D):
        return D if len(D) > 2 else D + (np.zeros((0, D[0].shape[1])), np.zeros(0))

    def sequences(self):
        return itertools.product(range(self.nm), repeat=self.N)

    def program(self, seq, x):
        return ocp_uncondensed([self.mats[m] for m in seq], [self.doms[m] for m in seq], self.XN, self.Q, self.R, self.P, x)

    def by_sequence(self, seq, x, relax=0.):
        """('opt', V, inputs) / ('inf',) / ('?',), and the feasibility margin"""
        (H, f, A, b, C, d), ix, iu = self.program(seq, x)
        b = b + relax
        m = qp_margin(A, b, C, d)
        if m is None:
            return ('?',), None
        if m < -1e-7:
            return ('inf',), m
        r = qp(H, f, A, b, C, d)
        if r[0] == 'opt':
            return ('opt', r[1], [r[2][iu(t)] for t in range(self.N)]), m
        return r, m

    def best(self, x):
        """(V or None, best margin, certain)"""
        key = tuple(np.round(x, 12))
        if key not in self._best:
            V, M, sure = None, -np.inf, True
            for seq in self.sequences():
                r, m = self.by_sequence(seq, x)
                if r[0] == '?':
                    sure = False
                    continue
                M = max(M, m)
                if r[0] == 'opt' and (V is None or r[1] < V):
                    V = r[1]
            self._best[key] = (V, M, sure)
        return self._best[key]

    def least(self, x, relax=1e-4):
        """The best cost when every inequality is relaxed: no tolerance of a solver can beat it"""
        V = [r[1] for r in (self.by_sequence(seq, x, relax)[0] for seq in self.sequences()) if r[0] == 'opt']
        return min(V) if V else np.inf

    def stage(self, x, u):
        return .5 * (x.dot(self.Q).dot(x) + u.dot(self.R).dot(u))

    def step(self, x, u, m):
        A, B, c = self.mats[m]
        return A.dot(x) + B.dot(u) + c

    def outside(self, x, u, m):
        return out_of(self.doms[m], np.concatenate((x, u)))

    def mode(self, x, u):
        """The mode of (x, u), None if outside every domain, '?' if near a border."""
        v = [self.outside(x, u, m) for m in range(self.nm)]
        if any(abs(t) < 1e-5 for t in v):
            return '?'
        for m, t in enumerate(v):
            if t < 0:
                return m
        return None


def out_of(D, z):
    """By how much z violates the inequalities and equalities of D"""
    g = np.max(D[0].dot(z) - D[1])
    if len(D) > 2 and len(D[2]):
        g = max(g, np.max(np.abs(D[2].dot(z) - D[3])))
    return float(g)
