"""C13: the optimal regulator: cost-to-go and gain are those of the infinite-horizon problem, whatever happens in the loop."""
import copy
import warnings
import numpy as np

from sim.core import Violation
from sim.plants import ref_dare
from sim.seams import SEAM, SimStop, place_fault
from sim.world import rnd

ID = 'C13'
RUNS = {'quick': 16000, 'thorough': 80000}
TIME_UNIT = 'sampling instants'
RULE = ('A run designs regulators for 1-3 plants of the same size (some not controllable), then closes the loops for 5-40 steps with actuator faults (stuck, zero, '
        'biased, saturated inputs), plant state jumps, node restarts and failing backends. The cost paid plus the predicted cost-to-go must equal, for every such history, '
        'the predicted cost at the start plus the exact price of every deviation; without deviations the state must vanish. Non-trivial: at least one deviation, jump or fault.')
REAL = ['LinearSystem.solve_dare, controllable, simulate, simulate_closed_loop', 'scipy solve_discrete_are']
STUB = ['the plant, actuator and their faults']
ASSUMPTIONS = ['Q, R positive definite (some Q singular but observable), plants controllable with a margin or exactly uncontrollable']


def generate(rng, tier):
    nx, nu = rng.choice([1, 2, 2, 3, 4] if rng.random() < .93 else [5, 6]), rng.choice([1, 1, 2] if rng.random() < .9 else [3, 4])
    plants = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        while True:
            M = np.array([[rng.gauss(0, 1) for _ in range(nx)] for _ in range(nx)])
            A = np.round(M / max(.2, np.max(np.abs(np.linalg.eigvals(M)))) * rng.uniform(.3, 1.5), 3)
            if nx > 1 and rng.random() < .12:
                # a dynamics that forgets: a chain of delays, or copies
                A = np.eye(nx, k=1) if rng.random() < .5 else np.vstack((A[:-1], np.eye(nx)[:1]))
                if rng.random() < .5:
                    A[-1] = 0.
            B = np.array([[rnd(rng, -1., 1.) for _ in range(nu)] for _ in range(nx)])
            if nu > 1 and rng.random() < .2:
                B[:, 1] = B[:, 0] * rng.choice([1., -1., 0., .5])      # duplicated or dead actuator
            bad = nx > 1 and rng.random() < .15
            if bad:
                k = rng.randint(1, nx - 1)
                A[k:, :k] = 0.
                B[k:, :] = 0.
                p = list(range(nx))
                rng.shuffle(p)
                A, B = A[p][:, p], B[p]
            L = np.array([[rng.uniform(-.7, .7) for _ in range(nx)] for _ in range(nx)])
            Q = np.diag([rng.uniform(.1, 2.) for _ in range(nx)])
            if rng.random() < .5:
                Q = Q + L.dot(L.T)
            if rng.random() < .15:
                v = np.array([rng.uniform(.3, 1.) for _ in range(nx)])
                Q = np.outer(v, v)
            Q = np.round(Q, 6)
            G = np.array([[rng.uniform(-.7, .7) for _ in range(nu)] for _ in range(nu)])
            R = np.round(np.diag([rng.uniform(.1, 2.) for _ in range(nu)]) + G.dot(G.T), 6)
            sp = {'A': A.tolist(), 'B': B.tolist(), 'Q': Q.tolist(), 'R': R.tolist(), 'bad': bad}
            if bad or ok(sp):
                break
        plants.append(sp)
    ops = []
    for _ in range(rng.randint(1, 4)):
        s = rng.randrange(len(plants))
        o = {'s': s, 'x': [round(rng.gauss(0, 2), 3) for _ in range(nx)], 'T': rng.randint(3, 25), 'dev': [], 'restart': rng.random() < .15}
        for t in range(o['T']):
            if rng.random() < .2:
                o['dev'].append({'t': t, 'k': rng.choice(['stuck', 'zero', 'bias', 'clip', 'jump']), 'v': [rnd(rng, -1., 1.) for _ in range(max(nu, nx))]})
        if rng.random() < .3:
            o['early'] = rng.random() < .6
            o['fault'] = {'exc': rng.choice(['backend', 'interrupt', 'memory']), 'fs': round(rng.random(), 4), 'fo': round(rng.random(), 4)}
        if rng.random() < .3:
            o['scale'] = rng.choice([.5, 3., 10.])
        ops.append(o)
    return {'plants': plants, 'ops': ops}


def ok(sp):
    A, B, Q, R = (np.array(sp[k]) for k in 'ABQR')
    nx = A.shape[0]
    C = np.hstack([np.linalg.matrix_power(A, i).dot(B) for i in range(nx)])
    O = np.vstack([Q.dot(np.linalg.matrix_power(A, i)) for i in range(nx)])
    if np.linalg.svd(C, compute_uv=False)[-1] < 3e-2 or np.linalg.svd(O, compute_uv=False)[-1] < 3e-2:
        return False
    P, K = ref_dare(A, B, Q, R)
    return P is not None and np.max(np.abs(P)) < 500 and np.max(np.abs(np.linalg.eigvals(A + B.dot(K)))) < .97


def execute(sc, ctx):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        _execute(sc, ctx)


def lib(f, what, fault=None, expect=None):
    st, v = SEAM.run(f, fault=fault, rng=1, budget=1000000)
    if st == 'exc':
        if isinstance(v, SimStop):
            raise Violation('no-progress', '%s did not end within its step budget' % what)
        if SEAM.fired:
            return 'failed'
        if expect and isinstance(v, expect):
            return 'refused'
        raise Violation('crash', '%s raised %r' % (what, v))
    if expect and not SEAM.fired:
        raise Violation('accepted', '%s was not refused' % what)
    return v


def _execute(sc, ctx):
    from pympc.dynamics.discrete_time_systems import LinearSystem
    D = [{k: np.array(p[k]) for k in 'ABQR'} for p in sc['plants']]
    make = lambda s: lib(lambda: LinearSystem(D[s]['A'].copy(), D[s]['B'].copy()), 'building')
    S = [make(s) for s in range(len(D))]
    for i, o in enumerate(sc['ops']):
        s = o['s']
        if s >= len(S):
            continue
        d, p = D[s], sc['plants'][s]
        ctx.mark(s, p['bad'], o['restart'])
        if o['restart']:
            S[s] = make(s)
            ctx.count('fault/restart')
        f = o.get('fault')
        if f and o.get('early'):
            fail(S, s, d, d['Q'], d['R'], f, ctx, p['bad'])
        c = lib(lambda: S[s].controllable, 'controllable')
        if bool(c) is p['bad']:
            raise Violation('regulator', 'controllable is %s for A=%s, B=%s' % (c, d['A'].tolist(), d['B'].tolist()))
        if p['bad']:
            lib(lambda: S[s].solve_dare(d['Q'], d['R']), 'the Riccati equation of a plant that is not controllable', expect=ValueError)
            ctx.count('refused')
            continue
        k = o.get('scale', 1.)
        Q, R = d['Q'] * k, d['R']
        if k != 1. and not ok(dict(p, Q=Q.tolist())):
            continue
        if f and not o.get('early'):
            fail(S, s, d, Q, R, f, ctx, False)
        out = lib(lambda: S[s].solve_dare(Q.copy(), R.copy()), 'solve_dare')
        try:
            P, K = np.asarray(out[0], float), np.asarray(out[1], float)
        except Exception:
            raise Violation('regulator', 'solve_dare answered %r' % (out,))
        nx, nu = d['B'].shape
        if P.shape != (nx, nx) or K.shape != (nu, nx):
            raise Violation('regulator', 'P has shape %s, K has shape %s' % (P.shape, K.shape))
        scale = 1 + np.max(np.abs(P))
        if np.max(np.abs(P - P.T)) > 1e-7 * scale or np.min(np.linalg.eigvalsh(P)) < -1e-7 * scale:
            raise Violation('regulator', 'P = %s is not symmetric positive semidefinite' % P.tolist())
        loop(S[s], d['A'], d['B'], Q, R, P, K, o, ctx)


def fail(S, s, d, Q, R, f, ctx, bad):
    """A question that fails from inside (its place is chosen on a copy of the system, asked as much as the system itself)."""
    if 'k' not in f:
        tr = []
        c = copy.deepcopy(S[s])
        SEAM.run(lambda: c.solve_dare(Q, R), trace=tr, rng=1)
        f['k'] = place_fault(tr, f['fs'], f['fo']) or 0
    if f['k']:
        st, v = SEAM.run(lambda: S[s].solve_dare(Q, R), fault={'k': f['k'], 'exc': f['exc']}, rng=1, budget=1000000)
        if st == 'exc' and not SEAM.fired and not (bad and isinstance(v, ValueError)):
            raise Violation('crash', 'solve_dare raised %r' % (v,))
        ctx.nontrivial = True


def loop(S, A, B, Q, R, P, K, o, ctx):
    W = R + B.T.dot(P).dot(B)
    x = np.array(o['x'])
    V0 = .5 * x.dot(P).dot(x)
    paid, price, big = 0., 0., abs(V0)
    dev = {}
    for e in o['dev']:
        dev.setdefault(e['t'], []).append(e)
    last = np.zeros(B.shape[1])
    for t in range(o['T']):
        u = K.dot(x)
        for e in dev.get(t, []):
            ctx.mark(t, e['k'])
            ctx.count('fault/' + e['k'])
            ctx.nontrivial = True
            v = np.array(e['v'])
            if e['k'] == 'stuck':
                u = last
            elif e['k'] == 'zero':
                u = 0. * u
            elif e['k'] == 'bias':
                u = u + v[:u.size]
            elif e['k'] == 'clip':
                u = np.clip(u, -abs(v[0]), abs(v[0]))
            else:
                y = x + v[:x.size]
                price += .5 * y.dot(P).dot(y) - .5 * x.dot(P).dot(x)
                x = y
                u = K.dot(x)
        w = u - K.dot(x)
        price += .5 * w.dot(W).dot(w)
        paid += .5 * (x.dot(Q).dot(x) + u.dot(R).dot(u))
        step = lib(lambda: S.simulate(x.copy(), [u.copy()]), 'simulate')
        x = A.dot(x) + B.dot(u)
        if np.max(np.abs(np.asarray(step[-1]) - x)) > 1e-8 * (1 + np.max(np.abs(x))):
            raise Violation('regulator', 'the simulated step ends in %s, the plant in %s' % (step[-1], x))
        last = u
        ctx.simtime += 1
        togo = .5 * x.dot(P).dot(x)
        big = max(big, abs(price), paid, togo)
        if abs(paid + togo - V0 - price) > 1e-6 * (1 + big):
            raise Violation('cost', 'after %d steps: paid %s + to go %s, predicted %s + price of the deviations %s' % (t + 1, paid, togo, V0, price))
    # the faults stop: the state vanishes and what is left to pay is what was predicted
    V = .5 * x.dot(P).dot(x)
    traj = lib(lambda: S.simulate_closed_loop(x.copy(), 60, K), 'simulate_closed_loop')
    if len(traj) != 61:
        raise Violation('regulator', 'closed loop of 60 steps has %d states' % len(traj))
    y, cost = x, 0.
    C = A + B.dot(K)
    for t, z in enumerate(traj):
        if np.max(np.abs(np.asarray(z) - y)) > 1e-7 * (1 + np.max(np.abs(x))):
            raise Violation('regulator', 'closed loop: state %d is %s, should be %s' % (t, z, y))
        if t < 60:
            cost += .5 * y.dot(Q + K.T.dot(R).dot(K)).dot(y)
            y = C.dot(y)
    rest = y
    for _ in range(4000):
        cost += .5 * rest.dot(Q + K.T.dot(R).dot(K)).dot(rest)
        rest = C.dot(rest)
        if np.max(np.abs(rest)) < 1e-10:
            break
    else:
        raise Violation('unstable', 'the regulated state does not vanish (spectral radius %s)' % np.max(np.abs(np.linalg.eigvals(C))))
    if abs(cost - V) > 1e-6 * (1 + V):
        raise Violation('cost', 'the regulated loop costs %s from %s, predicted %s' % (cost, x, V))
    ctx.log('cost', V, cost)
    ctx.count('loops')
