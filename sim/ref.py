"""Reference models: independent of pympc's code.

Linear programs go to HiGHS (scipy.optimize.linprog), quadratic programs to gurobi through
its matrix interface on the *uncondensed* problem, vertices are enumerated by brute force.
Answers closer to a decision boundary than a stated band are reported as None ("cannot
tell") and never compared.
"""
import itertools
import numpy as np
from scipy.optimize._highs._highs_wrapper import _highs_wrapper
from scipy.optimize._highs._highs_constants import CONST_INF
from scipy.optimize._linprog_highs import _highs_to_scipy_status_message

BAND = 1.e-4      # relative margin under which the reference declines to decide


def _raw(c, M, lo, hi, n, m):
    """HiGHS without linprog's per-call overhead. (status, fun, x)"""
    if m == 0:
        M, lo, hi, m = np.zeros((1, n)), np.array([-1.]), np.array([1.]), 1
    indptr = np.arange(0, n * m + 1, m, dtype=np.int32)
    indices = np.tile(np.arange(m, dtype=np.int32), n)
    inf = np.full(n, CONST_INF)
    res = _highs_wrapper(np.ascontiguousarray(c, dtype=float), indptr, indices, np.ascontiguousarray(M.T, dtype=float).ravel(),
                         lo, hi, -inf, inf, np.empty(0, dtype=np.uint8), _OPTIONS)
    return _highs_to_scipy_status_message(res.get('status'), res.get('message'))[0], res.get('fun'), res.get('x')


_OPTIONS = {
    'presolve': False, 'sense': 1, 'solver': None, 'time_limit': None, 'highs_debug_level': 0,
    'dual_feasibility_tolerance': None, 'ipm_optimality_tolerance': None, 'log_to_console': False,
    'mip_max_nodes': None, 'output_flag': False, 'primal_feasibility_tolerance': None,
    'simplex_dual_edge_weight_strategy': None, 'simplex_strategy': 1, 'simplex_crash_strategy': 0,
    'ipm_iteration_limit': None, 'simplex_iteration_limit': None, 'mip_rel_gap': None}


def lp(c, A=None, b=None, C=None, d=None):
    """min c x s.t. A x <= b, C x = d.  Returns ('opt', val, x), ('inf',), ('unb',) or ('?',)."""
    n = len(c)
    M, lo, hi = [], [], []
    if A is not None and A.shape[0]:
        M.append(A)
        lo.append(np.full(A.shape[0], -CONST_INF))
        hi.append(b)
    if C is not None and C.shape[0]:
        M.append(C)
        lo.append(d)
        hi.append(d)
    m = sum(len(x) for x in lo)
    if m:
        M, lo, hi = np.vstack(M).astype(float), np.concatenate(lo).astype(float), np.concatenate(hi).astype(float)
    try:
        st, fun, x = _raw(np.asarray(c, float), M, lo, hi, n, m)
        if st == 0:
            return ('opt', float(fun), np.array(x))
        if st == 2:
            return ('inf',)
        if st == 3:
            return ('unb',)
        # HiGHS sometimes answers "infeasible or unbounded"
        st, _, _ = _raw(np.zeros(n), M, lo, hi, n, m)
        if st == 0:
            # feasible: unbounded only if there is a descending ray
            I = np.eye(n)
            ray = [np.zeros(len(x)) if k else np.where(x > -CONST_INF, 0., x) for k, x in ((0, lo), (1, hi))] if m else [[], []]
            st, fun, _ = _raw(np.asarray(c, float), np.vstack((M, I)) if m else I, np.concatenate((ray[0], -np.ones(n))), np.concatenate((ray[1], np.ones(n))), n, m + n)
            return ('unb',) if st == 0 and fun < -1e-7 else ('?',)
    except Exception:
        return ('?',)
    if st == 2:
        return ('inf',)
    return ('?',)


def null(C, n):
    if C is None or C.shape[0] == 0:
        return np.eye(n)
    u, s, vt = np.linalg.svd(C)
    rank = int(np.sum(s > 1e-9 * max(1., s[0])))
    return vt[rank:].T


class RefPoly(object):
    """{x | A x <= b, C x = d}, immutable; every answer is recomputed from the rows."""

    def __init__(self, A, b, C=None, d=None):
        self.A = np.array(A, dtype=float)
        self.b = np.array(b, dtype=float).ravel()
        self.n = self.A.shape[1]
        self.C = np.zeros((0, self.n)) if C is None else np.array(C, dtype=float).reshape(-1, self.n)
        self.d = np.zeros(0) if d is None else np.array(d, dtype=float).ravel()
        self._memo = {}

    def memo(self, k, f):
        if k not in self._memo:
            self._memo[k] = f()
        return self._memo[k]

    # construction
    def with_ineq(self, A, b):
        return RefPoly(np.vstack((self.A, A)), np.concatenate((self.b, b)), self.C, self.d)

    def with_eq(self, C, d):
        return RefPoly(self.A, self.b, np.vstack((self.C, C)), np.concatenate((self.d, d)))

    def intersect(self, o):
        return RefPoly(np.vstack((o.A, self.A)), np.concatenate((o.b, self.b)),
                       np.vstack((o.C, self.C)), np.concatenate((o.d, self.d)))

    def product(self, o):
        def bd(P, Q):
            M = np.zeros((P.shape[0] + Q.shape[0], P.shape[1] + Q.shape[1]))
            M[:P.shape[0], :P.shape[1]] = P
            M[P.shape[0]:, P.shape[1]:] = Q
            return M
        return RefPoly(bd(self.A, o.A), np.concatenate((self.b, o.b)), bd(self.C, o.C), np.concatenate((self.d, o.d)))

    # equalities
    @property
    def eq_state(self):
        """'none', 'ok' (independent rows, proper nullspace), 'odd' (dependent or no nullspace)."""
        def f():
            m = self.C.shape[0]
            if m == 0:
                return 'none'
            if m >= self.n:
                return 'odd'
            s = np.linalg.svd(self.C, compute_uv=False)
            return 'ok' if s[-1] > 1e-3 * max(1., s[0]) else 'odd'
        return self.memo('eqs', f)

    def reduced(self):
        """The same set with independent equalities, or None if they are inconsistent, nearly dependent or leave a point."""
        def f():
            u, s, vt = np.linalg.svd(self.C)
            k = int(np.sum(s > 1e-9))
            if k == 0 or k >= self.n or np.any((s > 1e-9) & (s < 1e-2)):
                return None
            x = np.linalg.lstsq(self.C, self.d, rcond=1e-9)[0]
            if np.max(np.abs(self.C.dot(x) - self.d)) > 1e-9:
                return None
            return RefPoly(self.A, self.b, vt[:k], vt[:k].dot(x))
        return self.memo('reduced', f)

    # answers
    def cheb(self):
        """('opt', r, x) largest ball radius within the affine hull of the equalities (capped at 1e4)."""
        def f():
            N = null(self.C, self.n)
            nr = np.linalg.norm(self.A.dot(N), axis=1)
            c = np.concatenate((np.zeros(self.n), [-1.]))
            A = np.vstack((np.column_stack((self.A, nr)), np.concatenate((np.zeros(self.n), [1.]))[None, :]))
            b = np.concatenate((self.b, [1e4]))
            C = np.column_stack((self.C, np.zeros(self.C.shape[0])))
            r = lp(c, A, b, C, self.d)
            if r[0] == 'opt':
                return ('opt', -r[1], r[2][:-1])
            return r
        return self.memo('cheb', f)

    def constants(self):
        """(constant rows, state): inequalities that do not vary on the equalities' affine set.  state: 'none',
        'ok' (all satisfied, to roundoff), 'violated' or '?'."""
        def f():
            nr, n0 = np.linalg.norm(self.A.dot(null(self.C, self.n)), axis=1), np.linalg.norm(self.A, axis=1)
            c = nr <= 1e-12 * np.maximum(n0, 1e-12)
            near = ~c & (nr < 1e-3 * n0)
            if np.any(near):
                return c, '?'
            if not np.any(c):
                return c, 'none'
            x0 = np.linalg.lstsq(self.C, self.d, rcond=None)[0] if self.C.shape[0] else np.zeros(self.n)
            g = (self.b - self.A.dot(x0))[c]
            if np.any(g < -1e-4 * self.scale()):
                return c, 'violated'
            if np.all(g > -1e-12 * self.scale()):
                return c, 'ok'
            return c, '?'
        return self.memo('constants', f)

    def scale(self):
        return 1. + float(np.max(np.abs(self.b))) if self.b.size else 1.

    def empty(self):
        """True / False / None"""
        def f():
            if self.C.shape[0] and self.eq_state == 'odd':
                # are the equalities themselves consistent?
                x, _, rk, s = np.linalg.lstsq(self.C, self.d, rcond=None)
                res = np.max(np.abs(self.C.dot(x) - self.d))
                if 1e-9 < res < 1e-2:
                    return None
                s = np.linalg.svd(self.C, compute_uv=False)
                k = int(np.sum(s > 1e-9))
                if np.any((s > 1e-9) & (s < 1e-2)):
                    return None
                if res >= 1e-2:
                    return True
                u, ss, vt = np.linalg.svd(self.C)
                Cr = vt[:k]
                Q = RefPoly(self.A, self.b, Cr, Cr.dot(x))
                if k == self.n:
                    m = np.max((self.A.dot(x) - self.b) / np.maximum(np.linalg.norm(self.A, axis=1), 1e-9)) if self.b.size else -1.
                    return None if abs(m) < BAND * self.scale() else bool(m > 0)
                return Q.empty()
            r = self.cheb()
            if r[0] == 'inf':
                return True if self.eq_state == 'none' else None
            if r[0] != 'opt':
                return None
            N = null(self.C, self.n)
            cs = self.constants()[1]
            if cs == 'violated':
                return True
            if cs == 'ok' and abs(r[1]) > BAND * self.scale():
                return bool(r[1] < 0)
            if np.any(np.linalg.norm(self.A.dot(N), axis=1) < 1e-6):
                # rows that are constant on the affine set: decide with a plain feasibility margin
                c = np.concatenate((np.zeros(self.n), [-1.]))
                nr = np.maximum(np.linalg.norm(self.A, axis=1), 1e-9)
                A = np.vstack((np.column_stack((self.A, nr)), np.concatenate((np.zeros(self.n), [1.]))[None, :]))
                q = lp(c, A, np.concatenate((self.b, [10.])), np.column_stack((self.C, np.zeros(self.C.shape[0]))), self.d)
                if q[0] != 'opt':
                    return None
                return None if abs(q[1]) < BAND * self.scale() else bool(q[1] > 0)
            return None if abs(r[1]) < BAND * self.scale() else bool(r[1] < 0)
        return self.memo('empty', f)

    def bounded(self):
        """True / False / None, for a set known to be non-empty (empty sets count as bounded)."""
        def f():
            e = self.empty()
            if e is None:
                return None
            if e:
                return True
            n = self.n
            nr = np.maximum(np.linalg.norm(self.A, axis=1, keepdims=True), 1e-9)
            An = self.A / nr
            # how far from the origin can a unit-box recession direction go, and how far could it go
            # if the rows were slightly relaxed: a large gap means the cone is nearly degenerate
            box = np.vstack((np.eye(n), -np.eye(n)))
            best, relaxed = 0., 0.
            for i in range(n):
                for s in (1., -1.):
                    c = np.zeros(n)
                    c[i] = -s
                    r = lp(c, np.vstack((An, box)), np.concatenate((np.zeros(An.shape[0]), np.ones(2 * n))), self.C, np.zeros(self.C.shape[0]))
                    q = lp(c, np.vstack((An, box)), np.concatenate((1e-3 * np.ones(An.shape[0]), np.ones(2 * n))), self.C, np.zeros(self.C.shape[0]))
                    if r[0] != 'opt' or q[0] != 'opt':
                        return None
                    best = max(best, -r[1])
                    relaxed = max(relaxed, -q[1])
            if best > 0.5:
                # robustly unbounded only if it survives tightening
                tight = 0.
                for i in range(n):
                    for s in (1., -1.):
                        c = np.zeros(n)
                        c[i] = -s
                        q = lp(c, np.vstack((An, box)), np.concatenate((-1e-3 * (np.linalg.norm(An.dot(null(self.C, n)), axis=1) > 1e-9), np.ones(2 * n))), self.C, np.zeros(self.C.shape[0]))
                        if q[0] == 'opt':
                            tight = max(tight, -q[1])
                full = nulldim(np.vstack((self.A, self.C)), n) > 0
                return False if (tight > 0.2 or full) else None
            return True if relaxed < 0.5 else None
        return self.memo('bounded', f)

    def radius(self):
        """float, None (unbounded ball) or '?' """
        def f():
            if self.eq_state == 'odd':
                return '?'
            r = self.cheb()
            if self.constants()[1] == 'violated':
                return -1.
            if r[0] != 'opt':
                return '?'
            cs = self.constants()[1]
            if cs == 'violated':
                return -1.
            if cs == '?':
                return '?'
            if r[1] > 9.9e3:
                return None
            return '?' if r[1] > 1e3 else r[1]
        return self.memo('radius', f)

    def vertices(self):
        """array of vertices of a bounded, full-dimensional (within the equalities) set, or None/'?'"""
        def f():
            e, bd = self.empty(), self.bounded()
            if e is None or bd is None or self.eq_state == 'odd':
                return '?'
            if e or not bd:
                return None
            r = self.radius()
            if r == '?' or r is None or r < BAND:
                return '?'
            if self.C.shape[0]:
                N = null(self.C, self.n)
                x0 = np.linalg.lstsq(self.C, self.d, rcond=None)[0]
                A, b = self.A.dot(N), self.b - self.A.dot(x0)
            else:
                N, x0, A, b = np.eye(self.n), np.zeros(self.n), self.A, self.b
            nr = np.linalg.norm(A, axis=1)
            keep = nr > 1e-9
            A, b = A[keep] / nr[keep, None], b[keep] / nr[keep]
            V = brute_vertices(A, b)
            if V is None:
                return '?'
            return V.dot(N.T) + x0
        return self.memo('vertices', f)

    def violation(self, x):
        v = -np.inf
        if self.b.size:
            v = float(np.max(self.A.dot(x) - self.b))
        if self.d.size:
            v = max(v, float(np.max(np.abs(self.C.dot(x) - self.d))))
        return v

    def contains(self, x):
        """True / False / None; pympc's tolerance is 1e-7 on the raw residuals."""
        vi = float(np.max(self.A.dot(x) - self.b)) if self.b.size else -1.
        ve = float(np.max(np.abs(self.C.dot(x) - self.d))) if self.d.size else 0.
        if vi > 1e-5 or ve > 1e-5:
            return False
        if vi <= 1e-10 and ve <= 1e-9:
            return True
        return None

    def contains_within(self, x, tol):
        """The same with the tolerance of the caller on the residuals."""
        v = self.violation(x)
        return None if abs(v - tol) < 1e-3 * tol else bool(v < tol)

    def support(self, a):
        """max a x: ('opt', val), ('unb',), ('inf',), ('?',)"""
        r = lp(-np.asarray(a, float), self.A, self.b, self.C, self.d)
        return ('opt', -r[1]) if r[0] == 'opt' else r

    def included_in(self, o):
        """True / False / None"""
        e = self.empty()
        if e is None:
            return None
        if e:
            return True
        A2 = np.vstack((o.A, o.C, -o.C))
        b2 = np.concatenate((o.b, o.d, -o.d))
        ans = True
        for a, c in zip(A2, b2):
            r = self.support(a)
            if r[0] == 'unb':
                return False if self.bounded() is False else None
            if r[0] != 'opt':
                return None
            gap = r[1] - c
            sc = 1. + abs(c) + np.linalg.norm(a)
            if gap > 1e-5 * sc:
                return False
            if gap > 1e-9 * sc:
                ans = None
        return ans


def nulldim(M, n):
    if M.shape[0] == 0:
        return n
    s = np.linalg.svd(M, compute_uv=False)
    return n - int(np.sum(s > 1e-9 * max(1., s[0])))


def brute_vertices(A, b, tol=1e-7, cap=60000):
    """All vertices of {A x <= b} by enumerating the bases.  None if the geometry is not clear-cut
    (a basis point within 1e-5 of a row it neither satisfies nor is defined by)."""
    m, n = A.shape
    if m < n + 1:
        return None
    nc = 1
    for i in range(n):
        nc = nc * (m - i) // (i + 1)
    if nc > cap:
        return None
    idx = np.array(list(itertools.combinations(range(m), n)))
    M = A[idx]
    r = b[idx]
    det = np.abs(np.linalg.det(M)) if n > 1 else np.abs(M[:, 0, 0])
    ok = det > 1e-9
    if np.any(ok & (det < 1e-5)):
        # nearly parallel rows: vertices would be ill conditioned
        near = ok & (det < 1e-5)
        X = np.linalg.solve(M[near], r[near][..., None])[..., 0]
        if np.any(np.max(X.dot(A.T) - b, axis=1) < 1e-3 * (1. + np.max(np.abs(X), axis=1))):
            return None
        ok = ok & (det >= 1e-5)
    if not np.any(ok):
        return None
    X = np.linalg.solve(M[ok], r[ok][..., None])[..., 0]
    viol = np.max(X.dot(A.T) - b, axis=1)
    sc = 1. + np.max(np.abs(X), axis=1)
    if np.any((viol > tol * sc) & (viol < 1e-5 * sc)):
        return None
    V = X[viol <= tol * sc]
    return uniq(V)


def uniq(V, tol=1e-5):
    out = []
    for v in V:
        s = 1. + np.max(np.abs(v))
        if not any(np.max(np.abs(v - w)) < tol * s for w in out):
            out.append(v)
    return np.array(out) if len(out) else np.zeros((0, V.shape[1]))


def same_points(V, W, tol=1e-5):
    """Both lists contain the same points, up to tol and repetitions."""
    V, W = np.atleast_2d(np.asarray(V, float)), np.atleast_2d(np.asarray(W, float))
    if V.shape[1] != W.shape[1]:
        return False
    s = 1. + max(np.max(np.abs(V)), np.max(np.abs(W)))
    D = np.max(np.abs(V[:, None, :] - W[None, :, :]), axis=2)
    return bool(np.all(np.min(D, axis=0) < tol * s) and np.all(np.min(D, axis=1) < tol * s))


def same_set(P, R, tol=1e-5):
    """None if the two RefPolys describe the same set (or one cannot tell), otherwise a reason."""
    e1, e2 = P.empty(), R.empty()
    if e1 is None or e2 is None:
        return None
    if e1 != e2:
        return 'one set is empty, the other is not'
    if e1:
        return None
    for X, Y, name in ((P, R, 'too large'), (R, P, 'too small')):
        if X.included_in(Y) is False:
            return name
    return None


# ---------------------------------------------------------------------------
# quadratic programs, on gurobi's matrix interface

def _model(grb, n, A, b, C, d):
    m = grb.Model()
    m.setParam('OutputFlag', 0)
    m.setParam('Threads', 1)
    x = m.addMVar(n, lb=-grb.GRB.INFINITY)
    if A is not None and A.shape[0]:
        m.addConstr(A @ x <= b)
    if C is not None and C.shape[0]:
        m.addConstr(C @ x == d)
    return m, x


def qp(H, f, A, b, C=None, d=None, binaries=0):
    """min .5 x'Hx + f'x.  ('opt', val, x), ('inf',), ('?',)"""
    import gurobipy as grb
    n = len(f)
    m, x = _model(grb, n, A, b, C, d)
    m.setParam('FeasibilityTol', 1e-9)
    m.setParam('OptimalityTol', 1e-9)
    m.setParam('BarConvTol', 1e-12)
    m.setParam('DualReductions', 0)
    m.setObjective(.5 * (x @ H @ x) + f @ x)
    m.optimize()
    if m.status == grb.GRB.OPTIMAL:
        X = np.array(x.X)
        return ('opt', float(.5 * X.dot(H).dot(X) + f.dot(X)), X)
    if m.status == grb.GRB.INFEASIBLE:
        return ('inf',)
    return ('?',)


def qp_margin(A, b, C=None, d=None):
    """Largest uniform slack t of A x + t <= b, C x = d (capped at 1), None if HiGHS cannot tell,
    -inf if the equalities alone are infeasible."""
    n = A.shape[1]
    c = np.concatenate((np.zeros(n), [-1.]))
    A1 = np.vstack((np.column_stack((A, np.ones(A.shape[0]))), np.concatenate((np.zeros(n), [1.]))[None, :]))
    C1 = None if C is None else np.column_stack((C, np.zeros(C.shape[0])))
    r = lp(c, A1, np.concatenate((b, [1.])), C1, d)
    if r[0] == 'opt':
        return -r[1]
    if r[0] == 'inf':
        return -np.inf
    return None


def halves(D):
    """Inequalities and equalities (possibly none) of a set given as (F, h) or (F, h, C, d)"""
    F, h = D[0], D[1]
    C, d = (D[2], D[3]) if len(D) > 2 else (np.zeros((0, F.shape[1])), np.zeros(0))
    return (F, h), (C, d)


def ocp_uncondensed(mats, doms, XN, Q, R, P, x0):
    """Uncondensed optimal control problem.  mats: list of (A, B, c) per stage, doms: list of
    (F, h) on (x, u) per stage, XN: (F, h).  Variables (x0..xN, u0..uN-1).
    Domains and terminal set may have equalities: (F, h, C, d).
    Returns H, f, A, b, C, d and the index helpers."""
    N = len(mats)
    nx, nu = mats[0][1].shape
    n = nx * (N + 1) + nu * N
    ix = lambda t: slice(nx * t, nx * (t + 1))
    iu = lambda t: slice(nx * (N + 1) + nu * t, nx * (N + 1) + nu * (t + 1))
    H = np.zeros((n, n))
    for t in range(N):
        H[ix(t), ix(t)] = Q
        H[iu(t), iu(t)] = R
    H[ix(N), ix(N)] = P
    rows, rhs, erows, erhs = [], [], [], []
    E = np.zeros((nx, n))
    E[:, ix(0)] = np.eye(nx)
    erows.append(E)
    erhs.append(np.asarray(x0, float))
    for t in range(N):
        A, B, c = mats[t]
        E = np.zeros((nx, n))
        E[:, ix(t + 1)] = np.eye(nx)
        E[:, ix(t)] = -A
        E[:, iu(t)] = -B
        erows.append(E)
        erhs.append(c)
        for (F, h), M, v in zip(halves(doms[t]), (rows, erows), (rhs, erhs)):
            G = np.zeros((F.shape[0], n))
            G[:, ix(t)] = F[:, :nx]
            G[:, iu(t)] = F[:, nx:]
            M.append(G)
            v.append(h)
    for (F, h), M, v in zip(halves(XN), (rows, erows), (rhs, erhs)):
        G = np.zeros((F.shape[0], n))
        G[:, ix(N)] = F
        M.append(G)
        v.append(h)
    return (H, np.zeros(n), np.vstack(rows), np.concatenate(rhs), np.vstack(erows), np.concatenate(erhs)), ix, iu


def expm_taylor(M):
    """Matrix exponential by scaling, Taylor series and squaring (not scipy's)."""
    nrm = max(1e-16, np.linalg.norm(M, 1))
    s = max(0, int(np.ceil(np.log2(nrm))) + 4)
    X = M / 2. ** s
    E = np.eye(M.shape[0])
    T = np.eye(M.shape[0])
    for k in range(1, 19):
        T = T.dot(X) / k
        E = E + T
    for _ in range(s):
        E = E.dot(E)
    return E
