"""C08: a state belongs to the computed invariant set iff its closed-loop trajectory never violates the constraints."""
import contextlib
import copy
import io
import warnings
import numpy as np

from sim.core import Violation
from sim.plants import gen_linear, ref_matrices, ref_domain, ref_dare
from sim.ref import brute_vertices, RefPoly
from sim.seams import SEAM, SimStop, place_fault
from sim.world import gen_poly, rnd, differs

ID = 'C08'
RUNS = {'quick': 10000, 'thorough': 60000}
TIME_UNIT = 'plant steps'
RULE = ('A run synthesises the set for a random stable plant (or is refused for an unstable plant, an unbounded, lower-dimensional or origin-free constraint set), '
        'under injected failures and retries, then simulates the plant from kicked states on both sides of the reference boundary and '
        'asks for membership at every step. Non-trivial: the set differs from the constraint set and trajectories from inside and outside were run.')
REAL = ['mcais, LinearSystem.mcais, Polyhedron (inequalities, redundancy removal, membership)', 'pnnls LP']
STUB = ['plant: simulator', 'reference boundary: ray shooting through every A^t, no LP']
ASSUMPTIONS = ['spectral radius at most 0.993, constraint set bounded with the origin at least 0.05 inside every facet',
               'states within a relative 1e-5 of the boundary are not judged']


def generate(rng, tier):
    sc = {'events': [], 'ops': []}
    q = rng.random()
    if q < .45:
        nx = rng.choice([1, 2, 2, 2, 3, 3, 4])
        while True:
            M = np.array([[rng.gauss(0, 1) for _ in range(nx)] for _ in range(nx)])
            if rng.random() < .15:
                M = np.triu(M, 1 if rng.random() < .3 else 0)
            if rng.random() < .2 and nx > 1:
                M[-1] = rng.choice([0., 1.]) * M[0]
            rho = max(abs(np.linalg.eigvals(M)))
            if rho < 1e-3:
                rho = 1.
            M = np.round(M / rho * rng.choice([.2, .5, .7, .8, .9, .95, .97]), 4)
            if nx == 2 and rng.random() < .04:
                # slow oscillation: the constraints that matter lie far in the future
                th = rng.choice([.05, .1, .2, .4])
                T = np.array([[1., rng.uniform(-.4, .4)], [rng.uniform(-.4, .4), 1.]])
                M = np.array([[np.cos(th), np.sin(th)], [-np.sin(th), np.cos(th)]])
                M = np.round(rng.choice([.98, .985, .99, .993]) * T.dot(M).dot(np.linalg.inv(T)), 5)
                break
            if max(abs(np.linalg.eigvals(M))) < .971 and np.max(np.abs(M)) < 6:
                break
        m = rng.randint(0, 4)
        A = np.vstack((np.eye(nx), -np.eye(nx))).tolist()
        b = [rnd(rng, .3, 5.) for _ in range(2 * nx)]
        for _ in range(m):
            A.append([rnd(rng, -1., 1., 2) for _ in range(nx)])
            b.append(rnd(rng, .2, 3.))
        for i in range(len(A)):
            if rng.random() < .25:
                k = rng.choice([.01, .1, 3., 50.])
                A[i], b[i] = [v * k for v in A[i]], b[i] * k
        if rng.random() < .2:
            i = rng.randrange(len(A))
            A.append(list(A[i]))
            b.append(b[i])
        perm = list(range(len(A)))
        rng.shuffle(perm)
        sc.update(kind='direct', M=M.tolist(), A=[A[i] for i in perm], b=[b[i] for i in perm])
    elif q < .85:
        sp = gen_linear(rng, N=1)
        sc.update(kind='system', plant=sp)
    else:
        nx = rng.choice([1, 2, 3])
        why = rng.choice(['unstable', 'unbounded', 'origin', 'equality'])
        M = np.array([[rng.gauss(0, 1) for _ in range(nx)] for _ in range(nx)])
        rho = max(1e-2, max(abs(np.linalg.eigvals(M))))
        M = M / rho * (rng.choice([1.002, 1.02, 1.3, 3.]) if why == 'unstable' else rng.choice([.3, .8]))
        A = np.vstack((np.eye(nx), -np.eye(nx)))
        b = np.array([rnd(rng, .3, 5.) for _ in range(2 * nx)])
        i = rng.randrange(nx)
        if why == 'origin':
            b[i], b[nx + i] = -rnd(rng, .1, 1.), rnd(rng, 1.5, 3.)
        if why == 'unbounded':
            A, b = np.delete(A, i, 0), np.delete(b, i)
        if why == 'unstable' and max(abs(np.linalg.eigvals(np.round(M, 4)))) < 1.001:
            M = 1.5 * np.eye(nx)
        if why == 'equality':
            r = [rnd(rng, -1., 1., 2) for _ in range(nx)]
            r[i] = 1.
            sc.update(C=[r])
        sc['through'] = rng.random() < .4
        sc.update(kind='refuse', why=why, M=np.round(M, 4).tolist(), A=A.tolist(), b=b.tolist())
    sc['verbose'] = rng.random() < .1
    n = len(sc['M']) if 'M' in sc else sc['plant']['nx']
    for _ in range(rng.choice([0, 0, 1, 2])):
        sc['ops'].append({'fault': {'exc': rng.choice(['backend', 'interrupt', 'memory']), 'fs': round(rng.random(), 4), 'fo': round(rng.random(), 4)}})
    for _ in range(rng.randint(4, 10)):
        sc['events'].append({'d': [round(rng.gauss(0, 1), 3) for _ in range(n)],
                             's': rng.choice([.2, .7, .95, .999, 1. - 1e-4, 1. + 1e-4, 1.001, 1.01, 1.1, 1.5]),
                             'T': rng.randint(1, 25)})
    # directions aimed at constraint normals find the facets that matter
    sc['aim'] = [round(rng.random(), 3) for _ in range(rng.randint(0, 4))]
    return sc


def execute(sc, ctx):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        with contextlib.redirect_stdout(io.StringIO()):
            _execute(sc, ctx)


def powers(M, A, b):
    """All the rows A M^t x <= b that can matter inside the set, by decay of M^t."""
    out, X = [], np.eye(M.shape[0])
    t = 0
    while t < 3000:
        out.append(A.dot(X))
        X = M.dot(X)
        t += 1
        if np.max(np.abs(X)) < 1e-9:
            break
    return np.array(out)


def _execute(sc, ctx):
    from pympc.geometry.polyhedron import Polyhedron
    from pympc.dynamics.discrete_time_systems import LinearSystem, mcais
    kw = {'verbose': True} if sc.get('verbose') else {}
    if sc['kind'] == 'system':
        sp = sc['plant']
        A, B = ref_matrices(sp)
        P, K = ref_dare(A, B, np.array(sp['Q']), np.array(sp['R']))
        F, h = ref_domain(sp)
        nx = sp['nx']
        S = LinearSystem(np.array(A), np.array(B))
        D = Polyhedron(np.array(F), np.array(h))
        M, E, e = A + B.dot(K), F[:, :nx] + F[:, nx:].dot(K), h
        data = [S.A, S.B, D.A, D.b, K]
        call = lambda: S.mcais(K, D, **kw)
    else:
        M, E, e = np.array(sc['M'], float), np.array(sc['A'], float), np.array(sc['b'], float)
        nx = M.shape[0]
        X = Polyhedron(np.array(E), np.array(e))
        Mp = np.array(M)
        data = [Mp, X.A, X.b]
        call = lambda: mcais(Mp, X, **kw)
        if sc.get('C'):
            X.add_equality(np.array(sc['C'], float), np.zeros(1))
            data += [X.C, X.d]
        if sc.get('through'):
            # the same through a system with one input that the feedback leaves at zero
            D = Polyhedron(np.column_stack((E, np.zeros(len(E)))), np.array(e))
            if sc.get('C'):
                D.add_equality(np.column_stack((np.array(sc['C'], float), np.zeros((1, 1)))), np.zeros(1))
            S = LinearSystem(Mp, np.ones((nx, 1)))
            data += [D.A, D.b, D.C, D.d]
            call = lambda: S.mcais(np.zeros((1, nx)), D, **kw)
    snap = copy.deepcopy(data)
    O = None
    ctx.mark(sc['kind'], nx, len(E), np.round(max(abs(np.linalg.eigvals(M))), 2))
    for i, op in enumerate(sc['ops'] + [{}]):
        f = op.get('fault')
        fault = None
        if f:
            if 'k' not in f:
                tr = []
                SEAM.run(call, trace=tr, rng=1, budget=30000000)
                f['k'] = place_fault(tr, f['fs'], f['fo']) or 0
            if f['k']:
                fault = {'k': f['k'], 'exc': f['exc']}
        st, v = SEAM.run(call, fault=fault, budget=30000000, rng=1)
        fired = SEAM.fired
        ctx.log('synthesis', st, type(v).__name__)
        if fired:
            ctx.mark(fired['site'], fired['callee'])
        why = differs(data, snap)
        if why:
            raise Violation('altered', 'the synthesis changed its data: %s' % why)
        if st == 'exc':
            if isinstance(v, SimStop):
                raise Violation('no-progress', 'the synthesis did not end within its step budget')
            if fired:
                continue
            if sc['kind'] == 'refuse' and isinstance(v, ValueError):
                ctx.count('checked/refused')
                ctx.nontrivial = True
                return
            raise Violation('crash', 'the synthesis raised %r' % v)
        O = v
        if sc['kind'] != 'refuse':
            judge(sc, ctx, O, M, E, e)
    if sc['kind'] == 'refuse':
        raise Violation('not-refused', 'a set was returned although the problem is %s' % sc['why'])


def judge(sc, ctx, O, M, E, e):
    nx = M.shape[0]
    nr = np.linalg.norm(E, axis=1)
    if np.min(e / np.maximum(nr, 1e-9)) < .02:
        ctx.count('not-judged')
        return
    pw = powers(M, E, e)
    try:
        OA, Ob = np.array(O.A, float), np.array(O.b, float)
        if OA.shape != (Ob.size, nx):
            raise ValueError('shapes %s %s' % (OA.shape, Ob.shape))
    except Exception as ex:
        raise Violation('malformed', 'the synthesis answered %r: %r' % (O, ex))
    for i in range(len(Ob)):
        # no row that the others keep strictly away from
        rest = [j for j in range(len(Ob)) if j != i]
        n = np.linalg.norm(OA[i])
        r = RefPoly(OA[rest], Ob[rest], np.zeros((0, nx)), np.zeros(0)).support(OA[i] / n) if rest and n > 1e-6 and len(Ob) < 30 else ('?',)
        if r[0] == 'opt' and r[1] < Ob[i] / n - 1e-4 * (1 + abs(Ob[i] / n)):
            raise Violation('redundant', 'row %s <= %s of the computed set follows from the others' % (OA[i], Ob[i]))
    ev = [dict(x) for x in sc['events']]
    flat = pw.reshape(-1, nx)
    for a in sc['aim']:
        r = flat[int(a * (min(len(flat), 12 * len(E)) - 1))]
        n = np.linalg.norm(r)
        if n > 1e-6:
            ev.append({'d': (r / n).tolist(), 's': 1.001, 'T': 3})
            ev.append({'d': (r / n).tolist(), 's': .999, 'T': 8})
    if nx <= 3 and len(Ob) <= 24 and np.all(Ob > 0):
        # the corners of the answer are where it can be too large by little
        V = brute_vertices(OA, Ob)
        for v in ([] if V is None else list(V)[:40]):
            ev.append({'d': (np.array(v) / max(1e-9, np.linalg.norm(v))).tolist(), 's': 1. - 1e-4, 'T': 0})
    inside = outside = 0
    for k in ev:
        d = np.array(k['d'], float)
        n = np.linalg.norm(d)
        if n < 1e-3:
            continue
        d = d / n
        G = pw.dot(d)
        with np.errstate(divide='ignore', invalid='ignore'):
            R = np.where(G > 1e-12, e[None, :] / G, np.inf)
        s = float(np.min(R))
        t = int(np.argmin(np.min(R, axis=1)))
        if t > 0:
            ctx.count('boundary-set-by-future')
        if t > 20:
            ctx.count('boundary-set-by-far-future')
        a = OA.dot(d)
        so = np.min(Ob[a > 1e-12] / a[a > 1e-12]) if np.any(a > 1e-12) else np.inf
        if np.any(Ob < -1e-9):
            raise Violation('wrong-set', 'the origin is not in the computed set')
        if abs(so - s) > 1e-5 * (1 + s):
            raise Violation('wrong-set', 'along %s the admissible states end at %s (violated after %d steps), the computed set at %s' % (d, s, t, so))
        ctx.count('checked/boundary')
        # the plant runs from there, with membership asked at every step
        x = k['s'] * s * d
        margin = abs(k['s'] - 1.) * s
        if margin < 3e-5 or k['T'] == 0:
            continue
        was = None
        for step in range(k['T']):
            st, m = SEAM.run(lambda: O.contains(x), rng=1)
            if st == 'exc':
                raise Violation('crash', 'membership of %s raised %r' % (x, m))
            viol = float(np.max(E.dot(x) - e))
            if m and viol > 1e-5 * (1 + np.max(np.abs(e))):
                raise Violation('unsafe-member', 'the state %s is in the computed set but violates the constraints by %s' % (x, viol))
            if was and not m and np.max((OA.dot(x) - Ob)) > 1e-6 * (1 + np.max(np.abs(Ob))):
                raise Violation('not-invariant', 'the trajectory left the computed set at step %d in %s' % (step, x))
            if step == 0 and bool(m) != (k['s'] < 1.):
                # row scaling can put the point within the membership tolerance
                g = np.min(np.linalg.norm(OA, axis=1))
                if margin * min(1., g) > 1e-4 or k['s'] < 1.:
                    raise Violation('wrong-set', 'the state %s at %s of the boundary is %s the computed set' % (x, k['s'], 'in' if m else 'not in'))
            was = m
            x = M.dot(x)
            ctx.simtime += 1
            if k['s'] > 1. and step > t:
                break
        inside += k['s'] < 1.
        outside += k['s'] > 1.
        ctx.count('fault/state-kick')
        ctx.log('kick', k['s'], s, t)
    if inside and outside and ctx.n.get('boundary-set-by-future'):
        ctx.nontrivial = True
