"""C05: a projection is exactly the shadow, whatever the random draws made on the way."""
import copy
import warnings
import numpy as np

from sim.core import Violation
from sim.plants import gen_linear, Linear
from sim.ref import RefPoly
from sim.seams import SEAM, SimStop, RandomSeam, place_fault
from sim.world import gen_poly, hull_ref, rnd, differs

ID = 'C05'
RUNS = {'quick': 6000, 'thorough': 30000}
TIME_UNIT = 'projections'
RULE = ('A run projects one polytope (dimension 2-4, or the constraint set of a random MPC problem) onto seeded coordinates several '
        'times, under different legal random draws (uniform, clustered small, clustered large, narrow), other users of the global random '
        'generator, and injected failures followed by a retry; each result is compared with the exact shadow. Non-trivial: at '
        'least two projections of the same set under different draws.')
REAL = ['Polyhedron.project_to, convex hull method, plane_through_points, get_feasible_set', 'pnnls, qhull']
STUB = ['numpy.random.rand draws (legal values chosen by the simulator)']
ASSUMPTIONS = ['full-dimensional bounded polytopes in general position (inradius >= 0.05)', 'shadows with nearly parallel facets or points within 1e-4 of a facet they are not on are not judged']


def generate(rng, tier):
    sc = {'ops': []}
    if rng.random() < .7:
        n = rng.choice([2, 3, 3, 4, 4])
        k = rng.randint(1, min(3, n))
        generic = k == 3 or rng.random() < .7
        A, b = gen_poly(rng, n, 'bounded', 0. if generic else .25)
        sc.update(kind='poly', A=A, b=b, dims=rng.sample(range(n), k))
    else:
        sc.update(kind='mpc', plant=gen_linear(rng, nx=rng.choice([1, 2, 2, 2]), N=rng.randint(1, 3)),
                  dirs=[[round(rng.gauss(0, 1), 3) for _ in range(2)] for _ in range(8)])
    for _ in range(rng.randint(2, 4)):
        op = {'mode': rng.choice(['uniform', 'small', 'large', 'narrow', 'real']), 'rs': rng.randrange(10 ** 6)}
        if rng.random() < .25:
            op['fault'] = {'exc': rng.choice(['backend', 'interrupt', 'memory']), 'fs': round(rng.random(), 4), 'fo': round(rng.random(), 4)}
        sc['ops'].append(op)
    return sc


def execute(sc, ctx):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        _execute(sc, ctx)


def _execute(sc, ctx):
    from pympc.geometry.polyhedron import Polyhedron
    if sc['kind'] == 'poly':
        R = RefPoly(sc['A'], sc['b'])
        V = R.vertices()
        r = R.radius()
        if isinstance(V, str) or V is None or isinstance(r, str) or r is None or r < .05:
            ctx.count('not-judged')
            return
        S = hull_ref(V[:, sc['dims']])
        if S is None:
            ctx.count('not-judged')
            return
        A, b = np.array(sc['A'], float), np.array(sc['b'], float)
        dims = list(sc['dims'])
        P = Polyhedron(A, b)
        data = [A, b, dims]
        call = lambda: P.project_to(dims)
        fresh = lambda: (lambda Q: lambda: Q.project_to(list(dims)))(copy.deepcopy(P))
        W = S.vertices()

        def judge(Q):
            compare(Q, S, W, ctx)
    else:
        st, L = SEAM.run(lambda: Linear(sc['plant']), budget=3000000, rng=1)
        if st == 'exc':
            raise Violation('crash', 'building the controller raised %r' % L)
        reach = []
        for d in sc['dirs']:
            d = np.array(d[:L.nx])
            if np.linalg.norm(d) < .05:
                continue
            d = d / np.linalg.norm(d)
            s = L.reach(d)
            if s is None:
                return
            reach.append((d, s))
        data = [L.mpc.mpqp.A, L.mpc.mpqp.b, L.mpc.mpqp.H]
        call = lambda: L.mpc.mpqp.get_feasible_set()
        fresh = lambda: L.mpc.mpqp.get_feasible_set

        def judge(Q):
            E, f = np.array(Q.A, float), np.array(Q.b, float)
            if E.shape != (f.size, L.nx):
                raise Violation('malformed', 'feasible set with shapes %s %s' % (E.shape, f.shape))
            for d, s in reach:
                a = E.dot(d)
                t = np.min(f[a > 1e-9] / a[a > 1e-9]) if np.any(a > 1e-9) else np.inf
                if not abs(t - s) <= 1e-4 * (1 + s):
                    raise Violation('wrong-shadow', 'along %s the feasible states end at %s, the returned set at %s' % (d, s, t))
            ctx.count('checked/feasible-set')
            for v in Q.vertices:
                m = L.margin(np.asarray(v, float))
                if m is not None and m < -1e-5:
                    raise Violation('wrong-shadow', 'the vertex %s of the feasible set is infeasible by %s' % (v, m))
    S3 = sc['kind'] == 'poly' and len(sc['dims']) >= 3
    snap = copy.deepcopy(data)
    done = 0
    for i, op in enumerate(sc['ops']):
        fault = op.get('fault')
        if fault and 'k' not in fault:
            tr = []
            SEAM.run(fresh(), trace=tr, rng=op['rs'])
            fault['k'] = place_fault(tr, fault['fs'], fault['fo']) or 0
        f = {'k': fault['k'], 'exc': fault['exc']} if fault and fault['k'] else None
        if op['mode'] == 'real':
            st, Q = SEAM.run(call, fault=f, rng=op['rs'])
        else:
            with RandomSeam(op['mode'], op['rs']) as rs:
                st, Q = SEAM.run(call, fault=f, rng=op['rs'])
                ctx.count('fault/random-draws:' + op['mode'], rs.draws)
        fired = SEAM.fired
        ctx.mark(sc['kind'], op['mode'], fired and (fired['site'], fired['callee']))
        ctx.simtime += 1
        if st == 'exc':
            ctx.log(i, op['mode'], 'raised', type(Q).__name__)
            if isinstance(Q, SimStop):
                raise Violation('no-progress', 'the projection did not end within its step budget')
            if not fired and S3 and type(Q).__name__ == 'QhullError' and 'QH6154' not in str(Q):
                # qhull's incremental mode may give up on a 3-dimensional hull for precision reasons (see DESIGN.md)
                ctx.count('qhull-gave-up-in-3d')
            elif not fired:
                raise Violation('crash', 'the projection raised %r' % Q)
        else:
            ctx.log(i, op['mode'], 'ok')
            try:
                judge(Q)
            except Violation:
                raise
            except Exception as e:
                raise Violation('malformed', 'the projection answered %r: %r' % (Q, e))
            done += 1
        why = differs(data, snap)
        if why:
            raise Violation('altered', 'the projection changed its data: %s' % why)
    if done > 1:
        ctx.nontrivial = True


def compare(Q, S, W, ctx):
    from sim.ref import same_set
    n = S.n
    A, b = np.array(Q.A, float), np.array(Q.b, float)
    if A.shape != (b.size, n) or Q.C.shape[0]:
        raise Violation('malformed', 'projection with shapes %s %s' % (A.shape, b.shape))
    # the hull method may list one facet many times with last-bit differences, which troubles simplex codes
    nr = np.linalg.norm(A, axis=1)
    ok = nr > 1e-9
    if np.any(b[~ok] < -1e-7):
        raise Violation('wrong-shadow', 'the result has the unsatisfiable row 0 x <= %s' % np.min(b[~ok]))
    M = np.column_stack((A[ok] / nr[ok, None], b[ok] / nr[ok]))
    rows = []
    for r in M:
        if not any(np.max(np.abs(r - q)) < 1e-7 * (1 + abs(r[-1])) for q in rows):
            rows.append(r)
    rows = np.array(rows).reshape(-1, n + 1)
    T = RefPoly(rows[:, :-1], rows[:, -1])
    A = rows[:, :-1]
    # support in every facet direction of either description
    for M, who in ((S.A, 'shadow'), (A, 'result')):
        for a in M:
            na = np.linalg.norm(a)
            if na < 1e-9:
                continue
            hs, ht = S.support(a / na), T.support(a / na)
            if hs[0] != 'opt':
                return
            if ht[0] == '?':
                ctx.count('not-judged')
                continue
            if ht[0] != 'opt' or abs(hs[1] - ht[1]) > 1e-5 * (1 + abs(hs[1])):
                raise Violation('wrong-shadow', 'along %s the shadow extends to %s, the result to %s' % (a / na, hs[1], ht[1:]))
    ctx.count('checked/shadow')
    V = Q.vertices
    if V is None:
        raise Violation('wrong-shadow', 'the projection has no vertices')
    V = np.array([np.asarray(v, float) for v in V])
    if V.ndim != 2 or V.shape[1] != n:
        raise Violation('malformed', 'vertices with shape %s' % (V.shape,))
    s = 1e-5 * (1 + np.max(np.abs(V)))
    if np.max(V.dot(S.A.T) - S.b) > s:
        raise Violation('wrong-shadow', 'a listed vertex is outside the shadow by %s' % np.max(V.dot(S.A.T) - S.b))
    if not isinstance(W, str) and W is not None:
        D = np.max(np.abs(V[:, None, :] - W[None, :, :]), axis=2)
        if np.any(np.min(D, axis=0) > 10 * s):
            raise Violation('wrong-shadow', 'a vertex of the shadow is not listed: %s' % W[np.argmax(np.min(D, axis=0))])
        ctx.count('checked/vertices')
