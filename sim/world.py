"""A workspace of polyhedra driven through pympc's public interface, next to its reference model.

An operation is a JSON object; objects are referred to by name and an operation whose objects do
not exist is skipped, so that any sub-sequence of operations is again a valid scenario.
"""
import copy
import warnings
import math
import numpy as np

from sim.core import Violation
from sim.ref import RefPoly, same_set, same_points, lp, null, BAND
from sim.seams import SEAM, SimStop, Injected, place_fault

MUT = ('ineq', 'eq', 'eqdup', 'lb', 'ub', 'bounds', 'symineq', 'symeq', 'normalize', 'prune')
NEW = ('new', 'frombounds', 'fromlb', 'fromub', 'fromsym', 'hull', 'copy', 'deepcopy', 'facet', 'inter', 'prod', 'proj', 'shift')
QRY = ('empty', 'bounded', 'radius', 'center', 'vertices', 'contains', 'incl', 'minimal', 'plot')


# ---------------------------------------------------------------------------------------------
# generation

def rnd(rng, lo, hi, nd=2):
    return round(rng.uniform(lo, hi), nd)


def gen_row(rng, n, axis=0.25):
    if rng.random() < axis:
        r = [0.] * n
        r[rng.randrange(n)] = rng.choice([1., -1., 2., -.5])
        return r
    while True:
        r = [rnd(rng, -2., 2.) for _ in range(n)]
        if sum(v * v for v in r) > .3:
            return r


def gen_poly(rng, n, kind, axis=0.25, integer=False):
    """Rows of a polyhedron around a random point. kind: bounded / unbounded / empty / any"""
    c = [rnd(rng, -2., 2.) for _ in range(n)] if rng.random() < .6 else [0.] * n
    A, b = [], []
    if kind == 'bounded' and n in (2, 3) and not integer and rng.random() < .1:
        # round: many rows that all matter
        m = rng.randint(7, 15) if n == 2 else rng.randint(5, 8)
        for i in range(m):
            t = 2 * math.pi * (i + rng.uniform(-.2, .2)) / m
            r = [math.cos(t), math.sin(t)] + [rng.uniform(-.3, .3)] * (n - 2)
            A.append([round(v, 3) for v in r])
            b.append(round(2. * math.hypot(*r), 4))
        if n == 3:
            A += [[0., 0., 1.], [0., 0., -1.]]
            b += [1., 1.]
    elif kind in ('bounded', 'empty'):
        if rng.random() < .5:      # a generic simplex-like cage
            for i in range(n):
                for s in (1., -1.):
                    r = [round(s * (1. if j == i else 0.) + (rng.uniform(-.35, .35) if axis < 1 else 0.), 2) for j in range(n)]
                    A.append(r)
                    b.append(rnd(rng, .6, 3.))
        else:
            for i in range(n):
                for s in (1., -1.):
                    r = [0.] * n
                    r[i] = s
                    if axis == 0:
                        r = [round(v + rng.uniform(-.2, .2), 2) for v in r]
                    A.append(r)
                    b.append(rnd(rng, .6, 3.))
        for _ in range(rng.randint(0, 4)):
            A.append(gen_row(rng, n, axis))
            b.append(rnd(rng, .3, 4.))
    elif rng.random() < .5:
        # a cage that is open on one side
        i, t = rng.randrange(n), rng.choice([1., -1.])
        for j in range(n):
            for s in (1., -1.):
                if (j, s) != (i, t):
                    A.append([round(s * (1. if l == j else 0.) + (rng.uniform(-.2, .2) if axis == 0 else 0.), 2) for l in range(n)])
                    b.append(rnd(rng, .6, 3.))
        for _ in range(rng.randint(0, 2)):
            r = gen_row(rng, n, axis)
            A.append([-abs(v) * t if l == i else v for l, v in enumerate(r)])
            b.append(rnd(rng, .3, 4.))
    else:
        for _ in range(rng.randint(1, n + 2)):
            A.append(gen_row(rng, n, axis))
            b.append(rnd(rng, .3, 4.))
    if integer:
        A = [[int(round(2 * v)) for v in r] for r in A]
        A = [r if any(r) else [1] + [0] * (n - 1) for r in A]
        c = [int(round(v)) for v in c]
        b = [int(round(v)) + 1 for v in b]
    b = [round(bi + sum(x * y for x, y in zip(r, c)), 4) for bi, r in zip(b, A)]
    if kind == 'empty':
        r = gen_row(rng, n, axis)
        v = rnd(rng, -2., 2.)
        w = round(-v - rng.uniform(.5, 2.), 4)
        if integer:
            r = [int(v > 0) - int(v < 0) for v in r]
            v = int(v)
            w = -v - 1
        A += [r, [-x for x in r]]
        b += [v, w]
    elif not integer and kind == 'bounded' and rng.random() < .12:
        # thin, or empty by little
        r = gen_row(rng, n, axis)
        v = rnd(rng, -.3, .3) + round(sum(x * y for x, y in zip(r, c)), 4)
        A += [r, [-x for x in r]]
        b += [round(v, 4), round(-v + rng.choice([.004, .02, .06, -.004, -.02, -.06]), 4)]
    if not integer and rng.random() < .12:
        # rows in other units
        for i in range(len(A)):
            k = rng.choice([1., .1, .25, 4., 15.])
            A[i], b[i] = [round(v * k, 6) for v in A[i]], round(b[i] * k, 6)
    if integer:
        b = [int(round(v)) for v in b]
    k = list(range(len(A)))
    rng.shuffle(k)
    return [A[i] for i in k], [b[i] for i in k]


def scale_row(rng, A, b, p=.15):
    if rng.random() < p:
        k = rng.choice([.02, .05, .1, 8., 30.])
        A, b = [[round(v * k, 6) for v in r] for r in A], [round(v * k, 6) for v in b]
    return A, b


def gen_pts(rng, n, m):
    out = []
    for _ in range(m):
        d = [rnd(rng, -1., 1.) for _ in range(n)]
        if max(abs(v) for v in d) < .1:
            d[0] = 1.
        out.append({'d': d, 's': rng.choice([0., .5, .9, .999, 1.001, 1.1, 1.5, 3.]), 'off': rng.choice([0., 0., 0., .3, -.3, 1e-3, -1e-3])})
    return out


class Gen(object):
    """State-aware generator: knows only names and dimensions."""

    def __init__(self, rng, feats):
        self.r, self.f = rng, feats
        self.dim, self.m, self.neq, self.k = {}, {}, {}, 0
        self.ops = []

    def name(self):
        self.k += 1
        return 'p%d' % self.k

    def emit(self, **op):
        self.ops.append(op)
        return op

    def new(self, n=None):
        r = self.r
        n = n or r.choice([1, 2, 2, 2, 3, 3, 4] if r.random() < .97 else [5])
        o = self.name()
        kind = r.choices(['bounded', 'unbounded', 'empty'], [.75, .17, .08])[0]
        u = r.random()
        self.dim[o] = n
        self.neq[o] = 0
        if u < .62:
            integer = r.random() < .12
            A, b = gen_poly(r, n, kind, r.choice([0., .25, .25]), integer)
            op = {'op': 'new', 'o': o, 'A': A, 'b': b, 'int': integer}
            if n > 1 and r.random() < (.45 if integer else .2):
                op['C'], op['d'] = self.eqrow(n)
                if integer:
                    op['C'] = [[r.choice([-3, -2, -1, 1, 2, 3]) for _ in range(n)]]
                    op['d'] = [r.choice([-1, 0, 0, 1])]
                self.neq[o] = 1
            self.m[o] = len(b)
        elif u < .8:
            lo = [rnd(r, -3., -.3) for _ in range(n)]
            hi = [rnd(r, .3, 3.) for _ in range(n)]
            integer = r.random() < .1
            if integer:
                lo, hi = [r.choice([-3, -2, -1]) for _ in range(n)], [r.choice([1, 2, 3]) for _ in range(n)]
            op = {'int': integer, 'op': 'frombounds', 'o': o, 'lo': lo, 'hi': hi, 'idx': None, 'n': n}
            if n > 1 and r.random() < .4:
                idx = r.sample(range(n), r.randint(1, n))
                op.update(idx=idx, lo=lo[:len(idx)], hi=hi[:len(idx)])
            self.m[o] = 2 * n
        elif u < .88:
            lo = [rnd(r, -3., 3.) for _ in range(n)]
            op = {'op': r.choice(['fromlb', 'fromub']), 'o': o, 'x': lo, 'idx': None, 'n': n}
            if n > 1 and r.random() < .5:
                idx = r.sample(range(n), r.randint(1, n))
                op.update(idx=idx, x=lo[:len(idx)])
            self.m[o] = n
        elif u < .94 and n <= 3:
            A, b = gen_poly(r, n, kind, .25)
            op = {'op': 'fromsym', 'o': o, 'A': A, 'b': b}
            if n > 1 and r.random() < .4:
                op['C'], op['d'] = self.eqrow(n)
                self.neq[o] = 1
            self.m[o] = len(b)
        else:
            n = max(n, 2)
            self.dim[o] = n
            pts = [[rnd(r, -3., 3., 3) for _ in range(n)] for _ in range(n + 1 + r.randint(1, 5))]
            op = {'op': 'hull', 'o': o, 'pts': pts}
            self.m[o] = 8
        self.ops.append(op)
        return o

    def eqrow(self, n):
        r = self.r
        return scale_row(r, [gen_row(r, n, .3)], [rnd(r, -.8, .8)])

    def mutate(self, o):
        r, n = self.r, self.dim[o]
        u = r.random()
        idx = None
        if u < .38:
            kind = r.choice(['ineq', 'ineq', 'ineq', 'symineq'])
            k = r.choice([1, 1, 2])
            if kind == 'ineq' and r.random() < .3:
                idx = r.sample(range(n), r.randint(1, n))
            w = len(idx) if idx else n
            A = [gen_row(r, w, .3) for _ in range(k)]
            b = [r.choice([rnd(r, .2, 2.), rnd(r, 1., 6.), rnd(r, -2., 1.)]) for _ in range(k)]
            self.emit(op=kind, o=o, A=A, b=b, idx=idx)
            self.m[o] += k
        elif u < .52 and self.neq[o] < n - 1 and n > 1:
            kind = r.choice(['eq', 'eq', 'symeq'])
            if kind == 'eq' and r.random() < .3:
                idx = r.sample(range(n), r.randint(1, n))
            w = len(idx) if idx else n
            C, d = scale_row(r, [gen_row(r, w, .3)], [rnd(r, -.8, .8)])
            self.emit(op=kind, o=o, A=C, b=d, idx=idx)
            self.neq[o] += 1
        elif u < .55 and self.neq[o]:
            # the same equality again
            self.emit(op='eqdup', o=o, k=r.choice([1., -1., 2., -.5, 0.]), j=r.randrange(3))
        elif u < .76:
            if r.random() < .5:
                idx = r.sample(range(n), r.randint(1, n))
            w = len(idx) if idx else n
            scal = idx is not None and w == 1 and r.random() < .5
            lo = [rnd(r, -3.5, -.1) for _ in range(w)]
            hi = [rnd(r, .1, 3.5) for _ in range(w)]
            kind = r.choice(['lb', 'ub', 'bounds'])
            if kind == 'bounds':
                self.emit(op='bounds', o=o, lo=lo, hi=hi, idx=idx, scalar=scal)
            else:
                self.emit(op=kind, o=o, x=lo if kind == 'lb' else hi, idx=idx, scalar=scal)
            self.m[o] += w * (2 if kind == 'bounds' else 1)
        elif u < .88:
            self.emit(op='normalize', o=o)
        else:
            self.emit(op='prune', o=o)

    def flatten(self, *names):
        """Sometimes gives equalities to all the operands."""
        if self.r.random() < .2:
            for o in dict.fromkeys(names):
                if self.dim[o] > 1 and self.neq[o] == 0:
                    C, d = self.eqrow(self.dim[o])
                    self.emit(op='eq', o=o, A=C, b=d, idx=None)
                    self.neq[o] += 1

    def derive(self, o):
        r, n = self.r, self.dim[o]
        u = r.random()
        q = self.name()
        same = [x for x in self.dim if self.dim[x] == n]
        small = [x for x in self.dim if self.dim[x] + n <= (5 if self.neq[x] or self.neq[o] else 4) and self.m[x] + self.m[o] < 16]
        if u < .08 and n > 1 and self.neq[o] < n - 1:
            self.emit(op='facet', o=q, p=o, row=round(r.random(), 4))
            self.dim[q], self.m[q], self.neq[q] = n, self.m[o], self.neq[o] + 1
        elif u < .26:
            self.emit(op=r.choice(['copy', 'copy', 'deepcopy']), o=q, p=o)
            self.dim[q], self.m[q], self.neq[q] = n, self.m[o], self.neq[o]
        elif u < .52:
            p2 = r.choice(same)
            self.flatten(o, p2)
            self.emit(op='inter', o=q, p=o, q=p2)
            self.dim[q], self.m[q], self.neq[q] = n, self.m[o] + self.m[p2], self.neq[o] + self.neq[p2]
        elif u < .78 and small:
            p2 = r.choice(small)
            self.flatten(o, p2)
            self.emit(op='prod', o=q, p=o, q=p2)
            self.dim[q], self.m[q], self.neq[q] = n + self.dim[p2], self.m[o] + self.m[p2], self.neq[o] + self.neq[p2]
        elif n > 1 and self.neq[o] == 0:
            k = r.randint(1, min(2, n))
            self.emit(op='proj', o=q, p=o, dims=r.sample(range(n), k))
            self.dim[q], self.m[q], self.neq[q] = k, 8, 0
        else:
            return o
        return q

    def query(self, o, kind=None):
        r, n = self.r, self.dim[o]
        kind = kind or r.choices(QRY, [1, 1, 1, 1, 1.4, 1.4, 1., .8, .25])[0]
        if kind == 'contains':
            op = self.emit(op='contains', o=o, pts=gen_pts(r, n, r.randint(1, 4)))
            if r.random() < .15:
                op['tol'] = r.choice([1e-3, .01, .1, 1.])
            return op
        if kind == 'plot':
            return self.emit(op='plot', o=o, dims=r.sample(range(n), 2) if n > 1 else None, default=r.random() < .25, kw=r.choice([{}, {}, {'facecolor': 'b'}, {'alpha': .5, 'edgecolor': 'k'}]))
        if kind == 'incl':
            same = [x for x in self.dim if self.dim[x] == n]
            if r.random() < .25 and len(self.dim) < 9:
                # against a slightly larger, smaller or equal version of itself
                q = self.name()
                e = r.choice([0., 1e-4, 3e-4, 1e-3, .01, .1])
                v = [r.choice([0., e, -e]) for _ in range(5)]
                if r.random() < .5:
                    # one row only
                    v = [0.] * max(5, self.m[o])
                    v[r.randrange(len(v))] = r.choice([e, -e, -.1, -.3])
                both = r.random() < .4
                if both or r.random() < .2:
                    self.emit(op='vertices', o=o)
                self.emit(op='shift', o=q, p=o, e=v, eqs=r.random() < .5)
                self.dim[q], self.m[q], self.neq[q] = n, self.m[o], self.neq[o]
                if both or r.random() < .2:
                    self.emit(op='vertices', o=q)
                return self.emit(op='incl', o=o, q=q) if r.random() < .7 else self.emit(op='incl', o=q, q=o)
            return self.emit(op='incl', o=o, q=r.choice(same))
        return self.emit(op=kind, o=o)


def generate_ops(rng, nops, rates):
    """rates: weights of (new, mutate, derive, query)."""
    g = Gen(rng, None)
    g.new()
    while len(g.ops) < nops:
        o = rng.choice(list(g.dim)[-3:])
        k = rng.choices(['new', 'mut', 'der', 'qry'], rates)[0]
        if k == 'new' and len(g.dim) < 6:
            g.new(g.dim[o] if rng.random() < .5 else None)
        elif k == 'mut' and g.m[o] < 22:
            # ask first, change then, ask again: what a stale cache needs
            asked = None
            if rng.random() < .2:
                # several cached answers in any order before the change, several after it
                for q in rng.sample(['empty', 'bounded', 'radius', 'center', 'vertices'], rng.randint(2, 4)):
                    g.query(o, q)
                g.mutate(o)
                for q in rng.sample(['empty', 'bounded', 'radius', 'center', 'vertices'], rng.randint(2, 4)):
                    g.query(o, q)
                continue
            if rng.random() < .6:
                asked = g.query(o)
            g.mutate(o)
            if asked is not None and rng.random() < .8:
                g.query(o, asked['op'] if rng.random() < .5 else None)
        elif k == 'der' and len(g.dim) < 8:
            g.derive(o)
        else:
            g.query(o)
    return g


# ---------------------------------------------------------------------------------------------
# execution

def arr(v, integer=False):
    return np.array(v, dtype=int if integer else float)


class World(object):

    def __init__(self, ctx, watch=False):
        from pympc.geometry.polyhedron import Polyhedron
        self.P = Polyhedron
        self.ctx = ctx
        self.obj, self.ref, self.loose = {}, {}, set()
        self.watch = watch
        self.held = []        # (label, live object, snapshot): arrays and lists of the caller, results handed out

    # -- what belongs to the caller ------------------------------------------------------------
    def give(self, label, a):
        """The caller hands `a` to the library and keeps it."""
        if self.watch:
            self.held.append((label, a, copy.deepcopy(a)))
        return a

    def result(self, label, a):
        if self.watch and a is not None:
            self.held.append((label, a, copy.deepcopy(a)))

    def check_held(self, when):
        for label, live, snap in self.held:
            why = differs(live, snap)
            if why:
                raise Violation('altered', '%s changed (%s) %s' % (label, why, when))

    # -- building the call ---------------------------------------------------------------------
    def prepare(self, op):
        """Returns (thunk, finish) or None.  finish(value) updates the model and checks the answer."""
        k, P = op['op'], self.P
        o = op['o']
        if k in MUT or k in QRY:
            if o not in self.obj:
                return None
            p, R = self.obj[o], self.ref[o]
            if R.eq_state == 'odd' and self.needs_equalities(op):
                # (repeated equalities may be refused; if there is an answer, it is the one of the set)
                R = R.reduced()
                if R is None:
                    return None
        if 'p' in op and op['p'] not in self.obj or 'q' in op and op['q'] not in self.obj:
            return None
        return getattr(self, 'do_' + k)(op, *((p, R) if k in MUT or k in QRY else ()))

    def _store(self, o, ref, loose=False):
        def fin(val):
            self.obj[o] = val
            self.ref[o] = ref
            if loose:
                self.loose.add(o)
            else:
                self.loose.discard(o)
        return fin

    def do_new(self, op):
        it = op.get('int', False)
        A, b = self.give('A', arr(op['A'], it)), self.give('b', arr(op['b'], it))
        if 'C' in op:
            C, d = self.give('C', arr(op['C'], it)), self.give('d', arr(op['d'], it))
            return (lambda: self.P(A, b, C, d)), self._store(op['o'], RefPoly(op['A'], op['b'], op['C'], op['d']))
        return (lambda: self.P(A, b)), self._store(op['o'], RefPoly(op['A'], op['b']))

    def _sel(self, idx, n):
        return np.eye(n)[list(range(n) if idx is None else idx)]

    def do_frombounds(self, op):
        it = op.get('int', False)
        lo, hi = self.give('x_min', arr(op['lo'], it)), self.give('x_max', arr(op['hi'], it))
        S = self._sel(op['idx'], op['n'])
        R = RefPoly(np.vstack((S, -S)), np.concatenate((hi, -lo)))
        if op['idx'] is None:
            return (lambda: self.P.from_bounds(lo, hi)), self._store(op['o'], R)
        idx = self.give('indices', list(op['idx']))
        return (lambda: self.P.from_bounds(lo, hi, idx, op['n'])), self._store(op['o'], R)

    def _from1(self, op, lower):
        x = self.give('bound', arr(op['x']))
        S = self._sel(op['idx'], op['n'])
        R = RefPoly(-S, -x) if lower else RefPoly(S, x)
        f = self.P.from_lower_bound if lower else self.P.from_upper_bound
        if op['idx'] is None:
            return (lambda: f(x)), self._store(op['o'], R)
        idx = self.give('indices', list(op['idx']))
        return (lambda: f(x, idx, op['n'])), self._store(op['o'], R)

    def do_fromlb(self, op):
        return self._from1(op, True)

    def do_fromub(self, op):
        return self._from1(op, False)

    def _sym(self, A, b):
        import sympy as sp
        n = len(A[0])
        x = sp.Matrix([sp.Symbol('x%d' % i) for i in range(n)])
        e = sp.Matrix([sum((sp.Float(A[i][j]) * x[j] for j in range(n)), -sp.Float(b[i])) for i in range(len(b))])
        return x, e

    def do_fromsym(self, op):
        x, e = self._sym(op['A'], op['b'])
        if 'C' in op:
            _, q = self._sym(op['C'], op['d'])
            return (lambda: self.P.from_symbolic(x, e, q)), self._store(op['o'], RefPoly(op['A'], op['b'], op['C'], op['d']))
        return (lambda: self.P.from_symbolic(x, e)), self._store(op['o'], RefPoly(op['A'], op['b']))

    def do_hull(self, op):
        pts = [arr(p) for p in op['pts']]
        V = np.array(op['pts'])
        R = hull_ref(V)
        if R is None:
            return None
        self.give('points', pts)
        return (lambda: self.P.from_convex_hull(pts)), self._store(op['o'], R)

    def do_copy(self, op):
        src = self.obj[op['p']]
        return (lambda: copy.copy(src)), self._store(op['o'], self.ref[op['p']], op['p'] in self.loose)

    def do_shift(self, op):
        R = self.ref[op['p']]
        if not R.b.size:
            return None
        e = np.array([op['e'][i % len(op['e'])] for i in range(R.b.size)])
        A, b = R.A.copy(), R.b + e * np.linalg.norm(R.A, axis=1)
        C, d = (R.C.copy(), R.d.copy()) if op['eqs'] and R.d.size else (None, None)
        return (lambda: self.P(A, b) if C is None else self.P(A, b, C, d)), self._store(op['o'], RefPoly(A.copy(), b.copy(), C, d), op['p'] in self.loose)

    def do_deepcopy(self, op):
        src = self.obj[op['p']]
        return (lambda: copy.deepcopy(src)), self._store(op['o'], self.ref[op['p']], op['p'] in self.loose)

    def do_facet(self, op):
        """A facet: the polyhedron and one of its own rows, again, as an equality."""
        if op['p'] in self.loose:
            return None
        src, R = self.obj[op['p']], self.ref[op['p']]
        i = int(op['row'] * R.b.size) % R.b.size
        C, d = self.give('C', R.A[i:i + 1].copy()), self.give('d', R.b[i:i + 1].copy())

        def go():
            p = copy.copy(src)
            p.add_equality(C, d)
            return p
        return go, self._store(op['o'], R.with_eq(R.A[i:i + 1], R.b[i:i + 1]))

    def do_inter(self, op):
        p, q = self.obj[op['p']], self.obj[op['q']]
        if p.A.shape[1] != q.A.shape[1]:
            return None
        return (lambda: p.intersection(q)), self._store(op['o'], self.ref[op['p']].intersect(self.ref[op['q']]), op['p'] in self.loose or op['q'] in self.loose)

    def do_prod(self, op):
        p, q = self.obj[op['p']], self.obj[op['q']]
        return (lambda: p.cartesian_product(q)), self._store(op['o'], self.ref[op['p']].product(self.ref[op['q']]), op['p'] in self.loose or op['q'] in self.loose)

    def do_proj(self, op):
        p, R = self.obj[op['p']], self.ref[op['p']]
        e, b = R.empty(), R.bounded()
        if e is None or b is None:
            return None
        dims = self.give('residual_dimensions', list(op['dims']))
        if e or not b or R.C.shape[0]:
            # legitimately refused
            def refused(val):
                raise Violation('wrong-answer', 'projection of an empty, unbounded or lower-dimensional polyhedron was not refused')
            refused.expect = ValueError
            return (lambda: p.project_to(dims)), refused
        V = R.vertices()
        r = R.radius()
        if isinstance(V, str) or V is None or isinstance(r, str) or r is None or r < .05:
            return None
        S = hull_ref(V[:, op['dims']])
        if S is None:
            return None
        return (lambda: p.project_to(dims)), self._store(op['o'], S, True)

    # -- mutations -----------------------------------------------------------------------------
    def _setref(self, o, R):
        def fin(val):
            self.ref[o] = R
        return fin

    def do_ineq(self, op, p, R, eq=False):
        A, b = self.give('A', arr(op['A'])), self.give('b', arr(op['b']))
        S = self._sel(op['idx'], R.n)
        if A.shape[1] != S.shape[0]:
            return None
        R2 = R.with_eq(A.dot(S), b) if eq else R.with_ineq(A.dot(S), b)
        f = p.add_equality if eq else p.add_inequality
        if op['idx'] is None:
            return (lambda: f(A, b)), self._setref(op['o'], R2)
        idx = self.give('indices', list(op['idx']))
        return (lambda: f(A, b, idx)), self._setref(op['o'], R2)

    def do_eq(self, op, p, R):
        return self.do_ineq(op, p, R, True)

    def do_eqdup(self, op, p, R):
        if not R.d.size:
            return None
        j = op['j'] % R.d.size
        C, d = self.give('A', op['k'] * R.C[j:j + 1]), self.give('b', op['k'] * R.d[j:j + 1])
        return (lambda: p.add_equality(C, d)), self._setref(op['o'], R.with_eq(C.copy(), d.copy()))

    def do_symineq(self, op, p, R):
        x, e = self._sym(op['A'], op['b'])
        return (lambda: p.add_symbolic_inequality(x, e)), self._setref(op['o'], R.with_ineq(arr(op['A']), arr(op['b'])))

    def do_symeq(self, op, p, R):
        x, e = self._sym(op['A'], op['b'])
        return (lambda: p.add_symbolic_equality(x, e)), self._setref(op['o'], R.with_eq(arr(op['A']), arr(op['b'])))

    def _bnd(self, op, key, label):
        if op.get('scalar'):
            return float(op[key][0])
        return self.give(label, arr(op[key]))

    def do_lb(self, op, p, R):
        x = self._bnd(op, 'x', 'x_min')
        S = self._sel(op['idx'], R.n)
        R2 = R.with_ineq(-S, -arr(op['x']))
        idx = None if op['idx'] is None else self.give('indices', list(op['idx']))
        return (lambda: p.add_lower_bound(x, idx)), self._setref(op['o'], R2)

    def do_ub(self, op, p, R):
        x = self._bnd(op, 'x', 'x_max')
        S = self._sel(op['idx'], R.n)
        R2 = R.with_ineq(S, arr(op['x']))
        idx = None if op['idx'] is None else self.give('indices', list(op['idx']))
        return (lambda: p.add_upper_bound(x, idx)), self._setref(op['o'], R2)

    def do_bounds(self, op, p, R):
        lo, hi = self._bnd(op, 'lo', 'x_min'), self._bnd(op, 'hi', 'x_max')
        S = self._sel(op['idx'], R.n)
        R2 = R.with_ineq(np.vstack((-S, S)), np.concatenate((-arr(op['lo']), arr(op['hi']))))
        idx = None if op['idx'] is None else self.give('indices', list(op['idx']))
        return (lambda: p.add_bounds(lo, hi, idx)), self._setref(op['o'], R2)

    def do_normalize(self, op, p, R):
        def fin(val):
            for M, rhs in ((p.A, p.b), (p.C, p.d)):
                nr = np.linalg.norm(M, axis=1)
                # (rows of zeros cannot be normalised)
                if np.any(np.minimum(np.abs(nr - 1.), nr) > 1e-9):
                    raise Violation('wrong-answer', 'rows are not unit after normalize: %s' % nr)
        return (lambda: p.normalize()), fin

    def do_prune(self, op, p, R):
        e = R.empty()
        if e is None or R.eq_state == 'odd':
            return None
        if e:
            def refused(val):
                raise Violation('wrong-answer', 'pruning an empty polyhedron was not refused')
            refused.expect = ValueError
            return (lambda: p.remove_redundant_inequalities()), refused
        if not self.clear_facets(R):
            return None
        return (lambda: p.remove_redundant_inequalities()), (lambda val: self.check_irredundant(op['o'], list(range(p.A.shape[0]))))

    def clear_facets(self, R):
        """Rows that are constant on the equalities' affine set, or nearly so, make pruning ill posed."""
        N = null(R.C, R.n)
        nr = np.linalg.norm(R.A.dot(N), axis=1) / np.maximum(np.linalg.norm(R.A, axis=1), 1e-12)
        return bool(np.all(nr > 1e-2))

    # -- queries -------------------------------------------------------------------------------
    def do_empty(self, op, p, R):
        want = R.empty()
        return (lambda: p.empty), (lambda v: self.same_bool('empty', v, want))

    def do_bounded(self, op, p, R):
        want = R.bounded()
        return (lambda: p.bounded), (lambda v: self.same_bool('bounded', v, want))

    def same_bool(self, what, v, want):
        if want is None:
            self.ctx.count('cannot-tell')
            return
        if bool(v) is not want:
            raise Violation('wrong-answer', '%s is %s, should be %s' % (what, v, want))
        self.ctx.count('checked/' + what)

    def do_radius(self, op, p, R):
        want = R.radius()
        if want == '?':
            return None

        def fin(v):
            if (v is None) != (want is None):
                raise Violation('wrong-answer', 'radius is %s, should be %s' % (v, want))
            # (the value for an empty set depends on the rows that describe it, and pruning may have dropped some)
            if v is not None and not (abs(float(v) - want) <= 1e-5 * (1 + abs(want)) if want > 0 else float(v) < 1e-5):
                raise Violation('wrong-answer', 'radius is %s, should be %s' % (v, want))
            self.ctx.count('checked/radius')
        return (lambda: p.radius), fin

    def do_center(self, op, p, R):
        want = R.radius()
        if want == '?':
            return None

        def fin(v):
            self.result('center', v)
            if (v is None) != (want is None):
                raise Violation('wrong-answer', 'center is %s, the radius should be %s' % (v, want))
            if v is not None:
                v = np.array(v, dtype=float)
                if v.shape != (R.n,):
                    raise Violation('wrong-answer', 'center has shape %s' % (v.shape,))
                N = null(R.C, R.n)
                gap = np.max(R.A.dot(v) + want * np.linalg.norm(R.A.dot(N), axis=1) - R.b)
                eq = np.max(np.abs(R.C.dot(v) - R.d)) if R.d.size else 0.
                if want > 0 and (gap > 1e-5 * (1 + np.max(np.abs(R.b))) or eq > 1e-5):
                    raise Violation('wrong-answer', 'the ball of radius %s around the center %s leaves the set by %s / %s' % (want, v, gap, eq))
            self.ctx.count('checked/center')
        return (lambda: p.center), fin

    def do_vertices(self, op, p, R):
        want = R.vertices()
        if isinstance(want, str):
            return None

        def fin(v):
            self.result('vertices', v)
            if (v is None) != (want is None):
                raise Violation('wrong-answer', 'vertices: got %s, should be %s' % (v, want))
            if v is None:
                self.ctx.count('checked/no-vertices')
                return
            V = np.array([np.asarray(x, dtype=float) for x in v])
            if V.ndim != 2 or V.shape[1] != R.n:
                raise Violation('wrong-answer', 'vertices have shape %s in dimension %d' % (V.shape, R.n))
            if op['o'] in self.loose or degenerate(R, want):
                # qhull may add points of the set that are not extreme: all the vertices must be there, nothing outside the set
                D = np.max(np.abs(V[:, None, :] - want[None, :, :]), axis=2)
                s = 1e-5 * (1 + np.max(np.abs(want)))
                if np.any(np.min(D, axis=0) > s) or np.max(V.dot(R.A.T) - R.b) > s:
                    raise Violation('wrong-answer', 'vertices %s, should be %s' % (V.tolist(), want.tolist()))
            elif not same_points(V, want):
                raise Violation('wrong-answer', 'vertices %s, should be %s' % (V.tolist(), want.tolist()))
            self.ctx.count('checked/vertices')
        return (lambda: p.vertices), fin

    def point(self, R, s):
        d = np.array(s['d'], float)
        r = R.cheb()
        if r[0] != 'opt':
            return d
        N = null(R.C, R.n)
        x0 = r[2]
        if abs(r[1]) > 100:
            x0 = np.zeros(R.n)
        dd = N.dot(N.T.dot(d))
        if np.linalg.norm(dd) < 1e-6:
            dd = d
        a = R.A.dot(dd)
        sl = R.b - R.A.dot(x0)
        t = np.min(sl[a > 1e-9] / a[a > 1e-9]) if np.any(a > 1e-9) else 1.
        x = x0 + s['s'] * min(max(t, 0.), 50.) * dd
        if R.C.shape[0] and s['off']:
            x = x + s['off'] * R.C[len(s['d']) % R.C.shape[0]]
        return x

    def do_contains(self, op, p, R):
        X = [self.point(R, s) for s in op['pts']]
        tol = op.get('tol')
        want = [R.contains(x) if tol is None else RefPoly(p.A, p.b, p.C, p.d).contains_within(x, tol) for x in X]
        X = [self.give('point', x) for x in X]

        def fin(v):
            for x, got, w in zip(X, v, want):
                if w is None:
                    continue
                if bool(got) is not w:
                    raise Violation('wrong-answer', 'contains(%s) is %s, should be %s (residuals %s %s)' % (x, got, w, R.A.dot(x) - R.b, R.C.dot(x) - R.d))
                self.ctx.count('checked/contains-%s' % w)
        return (lambda: [p.contains(x) if tol is None else p.contains(x, tol) for x in X]), fin

    def do_incl(self, op, p, R):
        q, S = self.obj[op['q']], self.ref[op['q']]
        if R.n != S.n:
            return None
        want = R.included_in(S)
        return (lambda: p.is_included_in(q)), (lambda v: self.same_bool('included', v, want))

    def do_minimal(self, op, p, R):
        e = R.empty()
        if e is None or R.eq_state == 'odd' or (not e and not self.clear_facets(R)):
            return None

        def fin(v):
            self.result('minimal facets', v)
            if e:
                if v is not None:
                    raise Violation('wrong-answer', 'minimal facets of an empty polyhedron: %s' % v)
                return
            if v is None:
                raise Violation('wrong-answer', 'no minimal facets for a non-empty polyhedron')
            self.check_irredundant(op['o'], [int(i) for i in v])
        return (lambda: p.minimal_facets()), fin

    def check_irredundant(self, o, idx):
        p, R = self.obj[o], self.ref[o]
        A, b = np.array(p.A, float), np.array(p.b, float)
        if len(set(idx)) != len(idx) or any(i < 0 or i >= b.size for i in idx):
            raise Violation('wrong-answer', 'minimal facets %s of %d rows' % (idx, b.size))
        M = RefPoly(A[idx].reshape(-1, R.n), b[idx], R.C, R.d)
        # same set
        for a, c in zip(R.A, R.b):
            r = M.support(a) if len(idx) else ('unb',)
            if r[0] == 'unb' or r[0] == 'opt' and r[1] > c + 1e-5 * (1 + abs(c) + np.linalg.norm(a)):
                if r[0] == 'unb' and R.bounded() is None:
                    continue
                raise Violation('wrong-answer', 'the facets %s do not describe the set: row %s <= %s' % (idx, a, c))
        # no redundant row
        for i in idx:
            rest = [j for j in idx if j != i]
            if not rest:
                continue
            r = RefPoly(A[rest].reshape(-1, R.n), b[rest], R.C, R.d).support(A[i])
            # a row is redundant with no doubt if the others keep strictly away from it
            if r[0] == 'opt' and r[1] < b[i] - 1e-4 * (1 + abs(b[i])):
                raise Violation('wrong-answer', 'row %d of %s is redundant but kept' % (i, idx))
        self.ctx.count('checked/minimal')

    def do_plot(self, op, p, R):
        V = R.vertices()
        if R.n < 2 or isinstance(V, str) or R.eq_state not in ('none', 'ok'):
            return None
        dims = [i % R.n for i in op.get('dims') or [0, 1]]
        if dims[0] == dims[1] or op.get('default'):
            dims = [0, 1]
        want = None
        if V is not None:
            want = outline(V[:, dims])
            if want is None:
                return None
        dims = self.give('residual_dimensions', dims)
        kw = self.give('keywords', dict(op.get('kw') or {}))

        def f():
            import contextlib
            import io
            import matplotlib.pyplot as plt
            plt.close('all')
            try:
                with contextlib.redirect_stdout(io.StringIO()):
                    p.plot(**kw) if op.get('default') else p.plot(dims, **kw) if kw else p.plot(dims)
                ax = plt.gca()
                # what was drawn, in data coordinates
                drawn = []
                for q in ax.patches:
                    path = q.get_path()
                    xy = np.array(q.get_patch_transform().transform(path.vertices), float)
                    # (the vertex of a CLOSEPOLY is ignored when drawing)
                    drawn.append(xy if path.codes is None else xy[path.codes != path.CLOSEPOLY])
                drawn += [np.array(l.get_xydata(), float) for l in ax.lines]
                lim = ax.get_xlim() + ax.get_ylim()
            finally:
                plt.close('all')
            return drawn, lim

        def fin(v):
            drawn, lim = v
            if want is None:
                if drawn:
                    raise Violation('wrong-answer', 'an unbounded or empty polyhedron was drawn as %s' % drawn)
                return
            if not drawn:
                raise Violation('wrong-answer', 'nothing was drawn')
            W, area = want
            s = 1e-5 * (1 + np.max(np.abs(W)))
            D = np.vstack(drawn)
            if D.shape[1] != 2 or np.any(np.min(np.max(np.abs(D[:, None, :] - W[None, :, :]), axis=2), axis=0) > s):
                raise Violation('wrong-answer', 'the outline %s in dimensions %s misses a corner of %s' % (D.tolist(), dims, W.tolist()))
            if len(drawn) == 1:
                A = drawn[0]
                got = .5 * abs(np.sum(A[:, 0] * np.roll(A[:, 1], -1) - A[:, 1] * np.roll(A[:, 0], -1)))
                if abs(got - area) > 10 * s * (1 + area):
                    raise Violation('wrong-answer', 'the outline %s encloses the area %s, should be %s' % (A.tolist(), got, area))
            if W[:, 0].min() < min(lim[:2]) - s or W[:, 0].max() > max(lim[:2]) + s or W[:, 1].min() < min(lim[2:]) - s or W[:, 1].max() > max(lim[2:]) + s:
                raise Violation('wrong-answer', 'the outline %s is not visible in the window %s' % (W.tolist(), lim))
            self.ctx.count('checked/outline')
        return f, fin

    # -- running -------------------------------------------------------------------------------
    def needs_equalities(self, op):
        return op['op'] in ('radius', 'center', 'vertices', 'minimal', 'prune', 'plot')

    def check_rows(self, o, when):
        """The public rows of the object describe the model's set."""
        p, R = self.obj[o], self.ref[o]
        try:
            A, b, C, d = (np.array(getattr(p, k), dtype=float) for k in 'AbCd')
        except Exception as e:
            raise Violation('broken-object', 'unreadable rows of %s %s: %r' % (o, when, e))
        if A.ndim != 2 or C.ndim != 2 or b.ndim != 1 or d.ndim != 1 or A.shape[0] != b.size or C.shape[0] != d.size \
           or A.shape[1] != R.n or C.shape[1] != R.n:
            raise Violation('broken-object', '%s %s: shapes A %s b %s C %s d %s' % (o, when, A.shape, b.shape, C.shape, d.shape))
        if not all(np.all(np.isfinite(M)) for M in (A, b, C, d)):
            raise Violation('broken-object', '%s %s: the constraints are not numbers' % (o, when))
        if rows_equal(A, b, R.A, R.b) and rows_equal(C, d, R.C, R.d, True):
            return
        why = same_set(RefPoly(A, b, C, d), R)
        if why:
            raise Violation('wrong-set', '%s %s: the constraints describe a set that is %s' % (o, when, why))

    def run(self, op, i=0):
        """Runs one operation, resolving and injecting its fault. Returns 'skip', 'ok' or 'failed'."""
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            return self._run(op, i)

    def _run(self, op, i):
        ctx = self.ctx
        mark = len(self.held)
        pr = self.prepare(op)
        if pr is None:
            del self.held[mark:]
            return 'skip'
        odd = op['o'] in self.ref and self.ref[op['o']].eq_state == 'odd' and self.needs_equalities(op)
        thunk, fin = pr
        fault = op.get('fault')
        if fault and 'k' not in fault:
            fault['k'] = self.resolve(op, fault)
            if not fault['k']:
                fault = None
        others = {n: rows(p) for n, p in self.obj.items() if n != op['o'] or op['op'] not in MUT} if self.watch else {}
        ctx.mark(op['op'], self.ref[op['o']].n if op['o'] in self.ref else '')
        st, val = SEAM.run(thunk, fault={'k': fault['k'], 'exc': fault['exc']} if fault else None, rng=i + 1)
        fired = SEAM.fired
        if fired:
            ctx.mark('fault', fired['kind'], fired['site'], fired['callee'])
            ctx.log('fault', fired['kind'], fired['site'], fired['callee'])
        when = 'after %s' % op['op'] + (' with injected %s in %s' % (fired['kind'], fired['site']) if fired else '')
        if st == 'exc':
            ctx.log(i, op['op'], op['o'], 'raised', type(val).__name__)
            if isinstance(val, SimStop):
                raise Violation('no-progress', '%s did not end within its step budget' % op['op'])
            if isinstance(val, (Injected,)) or fired:
                ctx.count('failed-by-fault')
            elif getattr(fin, 'expect', None) and isinstance(val, fin.expect):
                ctx.count('refused')
            elif odd and isinstance(val, (ValueError, np.linalg.LinAlgError)):
                ctx.count('refused')
            elif op.get('bad'):
                ctx.count('refused')
            else:
                raise Violation('crash', '%s raised %r' % (op['op'], val))
            out = 'failed'
        else:
            if op.get('bad'):
                raise Violation('accepted', 'invalid arguments accepted: %s' % op)
            try:
                fin(val)
            except Violation:
                raise
            except Exception as e:
                raise Violation('malformed', '%s answered %r: %r' % (op['op'], val, e))
            out = 'ok'
            ctx.log(i, op['op'], op['o'], 'ok', brief(val))
        if self.watch:
            self.check_held(when)
            for n, before in others.items():
                if n in self.obj and differs(rows(self.obj[n]), before):
                    raise Violation('other-object', 'the rows of %s changed %s (on %s)' % (n, when, op['o']))
        if op['o'] in self.obj:
            self.check_rows(op['o'], when)
        ctx.simtime += 1
        return out

    def resolve(self, op, fault):
        """Dry run on copies of every object: which calls does the operation make?"""
        w = World(type(self.ctx)(), False)
        w.obj, w.ref, w.loose = copy.deepcopy(self.obj), dict(self.ref), set(self.loose)
        pr = w.prepare(op)
        if pr is None:
            return None
        tr = []
        SEAM.run(pr[0], trace=tr, rng=1)
        if 'late' in fault and tr:
            # close to the end of the operation, where it is likely to write
            return max(1, len(tr) - fault['late'])
        if fault.get('kinds'):
            ok = [j for j, t in enumerate(tr) if t[2] in fault['kinds']]
            if ok:
                k = place_fault([tr[j] for j in ok], fault['fs'], fault['fo'])
                return ok[k - 1] + 1
        return place_fault(tr, fault['fs'], fault['fo'])


def outline(P):
    """Corners and area of the convex hull of points of the plane, None if it is (nearly) flat."""
    from scipy.spatial import ConvexHull
    try:
        h = ConvexHull(P)
    except Exception:
        return None
    W = P[h.vertices]
    # corners that are nearly on the segment between their neighbours may or may not be reported
    a, c = np.roll(W, 1, 0), np.roll(W, -1, 0)
    turn = (W[:, 0] - a[:, 0]) * (c[:, 1] - W[:, 1]) - (W[:, 1] - a[:, 1]) * (c[:, 0] - W[:, 0])
    if h.volume < 1e-2:
        return None
    return W[np.abs(turn) > 1e-4], h.volume


def degenerate(R, V):
    """Some vertex lies on more distinct facets than its dimension."""
    N = null(R.C, R.n)
    M = R.A.dot(N)
    nr = np.linalg.norm(M, axis=1)
    ok = nr > 1e-9
    M, g = M[ok] / nr[ok, None], (R.b[ok][None, :] - V.dot(R.A[ok].T)) / nr[ok]
    for i in range(len(V)):
        act = M[np.abs(g[i]) < 1e-6 * (1 + np.max(np.abs(V[i])))]
        if len({tuple(np.round(a, 6) + 0.) for a in act}) > N.shape[1]:
            return True
    return False


def rows(p):
    return {k: np.array(getattr(p, k)) for k in 'AbCd'}


def brief(v):
    if v is None or isinstance(v, (bool, int, float, np.bool_, np.floating)):
        return v if not isinstance(v, np.bool_) else bool(v)
    if isinstance(v, np.ndarray):
        return np.round(v, 4) + 0.
    if isinstance(v, (list, tuple)) and len(v) and isinstance(v[0], np.ndarray):
        return np.round(np.sort(np.round(np.array(v), 3), axis=0), 2) + 0.
    if isinstance(v, (list, tuple)):
        return [brief(x) for x in v]
    return type(v).__name__


def rows_equal(A, b, E, f, eq=False):
    """Same rows, in any order and up to positive scaling (quick sufficient test)."""
    if A.shape != E.shape:
        return False
    if A.shape[0] == 0:
        return True
    if np.array_equal(A, E) and np.array_equal(b, f):
        return True
    M, N = np.column_stack((A, b)), np.column_stack((E, f))
    n1, n2 = np.linalg.norm(A, axis=1), np.linalg.norm(E, axis=1)
    if np.min(n1) < 1e-9 or np.min(n2) < 1e-9:
        return False
    M, N = M / n1[:, None], N / n2[:, None]
    D = np.max(np.abs(M[:, None, :] - N[None, :, :]), axis=2)
    return bool(np.all(np.min(D, axis=0) < 1e-10) and np.all(np.min(D, axis=1) < 1e-10))


def differs(a, b, path=''):
    """Exact comparison (values, types, shapes) of arrays, lists, dicts, numbers. Reason or None."""
    if type(a) is not type(b):
        return 'type at %s' % path
    if isinstance(a, np.ndarray):
        if a.shape != b.shape or a.dtype != b.dtype:
            return 'shape or type at %s' % path
        if not np.array_equal(a, b, equal_nan=a.dtype.kind == 'f'):
            return 'values at %s: %s became %s' % (path, b.tolist(), a.tolist())
        return None
    if isinstance(a, (list, tuple)):
        if len(a) != len(b):
            return 'length at %s' % path
        for i, (x, y) in enumerate(zip(a, b)):
            w = differs(x, y, path + '[%d]' % i)
            if w:
                return w
        return None
    if isinstance(a, dict):
        if set(a) != set(b):
            return 'keys at %s' % path
        for k in a:
            w = differs(a[k], b[k], path + '[%r]' % (k,))
            if w:
                return w
        return None
    if isinstance(a, (int, float, str, bool, type(None), np.generic)):
        return None if a == b or a != a and b != b else 'value at %s' % path
    return None


def hull_ref(V):
    """RefPoly of the convex hull of points, None if it is not clear-cut."""
    V = np.asarray(V, float)
    n = V.shape[1]
    if n == 1:
        hi, lo = V.max(), V.min()
        if hi - lo < .05:
            return None
        return RefPoly([[1.], [-1.]], [hi, -lo])
    from scipy.spatial import ConvexHull
    try:
        h = ConvexHull(V)
    except Exception:
        return None
    E = h.equations
    _, k = np.unique(np.round(E, 7), axis=0, return_index=True)
    E = E[np.sort(k)]
    R = RefPoly(E[:, :-1], -E[:, -1])
    r = R.radius()
    if isinstance(r, str) or r is None or r < .02:
        return None
    # facets that are nearly parallel to each other, or points nearly on a facet: not clear-cut
    G = E[:, :-1].dot(E[:, :-1].T)
    np.fill_diagonal(G, -1.)
    if np.max(G) > 1 - 1e-6:
        return None
    D = V.dot(E[:, :-1].T) + E[:, -1]
    if np.any((D < -1e-9) & (D > -1e-4)):
        return None
    return R
