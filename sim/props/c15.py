"""C15: a piecewise-affine system is well posed iff no two domains share interior points, whatever was asked, changed or failed before."""
import warnings
import numpy as np

from sim.core import Violation
from sim.ref import RefPoly
from sim.seams import SEAM, SimStop, place_fault
from sim.world import rnd, gen_row, differs, rows

ID = 'C15'
RUNS = {'quick': 16000, 'thorough': 80000}
TIME_UNIT = 'operations'
RULE = ('A run cuts a box or the whole space into 2-6 cells, makes some of them overlap, shrink, repeat or vanish, and lives through a seeded history of questions to '
        'the domains, domains being tightened, systems being rebuilt from the same domains, and the well-posedness question itself, made to fail from inside and '
        'asked again. Non-trivial: the question was asked before and after a change or a failure.')
REAL = ['PieceWiseAffineSystem.is_well_posed, get_mode, Polyhedron (intersection, Chebyshev radius)', 'pnnls LP']
STUB = ['reference: Chebyshev radius of every pair by HiGHS']
ASSUMPTIONS = ['domains without equalities; pairs whose common part has a Chebyshev radius between 1e-9 and 1e-5 are not judged']


def generate(rng, tier):
    nx, nu = rng.choice([1, 1, 2, 2, 3]), rng.choice([1, 1, 2])
    n = nx + nu
    free = rng.random() < .35
    if free:
        cells = [([], [])]
    else:
        lo, hi = [rnd(rng, -4., -.5) for _ in range(n)], [rnd(rng, .5, 4.) for _ in range(n)]
        I = np.eye(n)
        cells = [(np.vstack((I, -I)).tolist(), hi + [-v for v in lo])]
    for _ in range(rng.choice([1, 1, 2, 2, 3, 4])):
        k = rng.randrange(len(cells))
        A, b = cells.pop(k)
        a = gen_row(rng, n, .4)
        c = rnd(rng, -.6, .6)
        s = rng.choice([1., 1., .5, 3.])        # the two sides of a cut need not be written alike
        cells.append((A + [a], b + [c]))
        cells.append((A + [[-s * v for v in a]], b + [-s * c]))
    spoil = rng.random()
    if spoil < .5:
        k = rng.randrange(len(cells))
        A, b = cells[k]
        i = rng.randrange(len(b))
        b = list(b)
        b[i] = round(b[i] + rng.choice([.001, .01, .1, 1., 5., -.01, -.1, -1.]), 4)
        cells[k] = (A, b)
    elif spoil < .58:
        cells.append(rng.choice(cells))
    elif spoil < .66:
        a = gen_row(rng, n, .4)
        cells.append(([a, [-v for v in a]], [0., rng.choice([-.5, -.01, .01, .5])]))
    rng.shuffle(cells)
    ops = []
    for _ in range(rng.randint(2, 7)):
        k = rng.choice(['ask', 'ask', 'ask', 'tighten', 'question', 'question', 'rebuild', 'mode'])
        op = {'op': k, 'd': rng.randrange(len(cells))}
        if k == 'ask' and rng.random() < .45:
            op['fault'] = {'exc': rng.choice(['backend', 'interrupt', 'memory']), 'fs': round(rng.random(), 4), 'fo': round(rng.random(), 4)}
        if k == 'tighten':
            op.update(i=round(rng.random(), 3), by=rng.choice([.002, .02, .2, 1., 3.]), a=gen_row(rng, n) if rng.random() < .3 else None, b=rnd(rng, -.5, 1.))
        if k == 'question':
            op['q'] = rng.choice(['empty', 'bounded', 'radius', 'center'])
        if k == 'mode':
            op['x'] = [rnd(rng, -3., 3.) for _ in range(n)]
            if rng.random() < .6:
                op['off'] = rng.choice([1., -1.]) * rng.choice([3e-5, 1e-4, 1e-3, 1e-2])
        if k == 'ask' and rng.random() < .15:
            op['tol'] = rng.choice([1e-3, .05, .5])
        ops.append(op)
    ops.append({'op': 'ask', 'd': 0})
    return {'nx': nx, 'nu': nu, 'cells': [list(c) for c in cells], 'ops': ops}


def execute(sc, ctx):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        _execute(sc, ctx)


def lib(f, what, fault=None):
    st, v = SEAM.run(f, fault=fault, budget=10000000, rng=1)
    if st == 'exc':
        if isinstance(v, SimStop):
            raise Violation('no-progress', '%s did not end within its step budget' % what)
        if SEAM.fired:
            return 'failed', None
        raise Violation('crash', '%s raised %r' % (what, v))
    return 'ok', v


def depth(refs):
    """The largest Chebyshev radius of a common part of two domains (None: cannot tell)."""
    worst = -1.
    for i in range(len(refs)):
        for j in range(i + 1, len(refs)):
            r = refs[i].intersect(refs[j]).cheb()
            if r[0] == 'inf':
                continue
            if r[0] != 'opt':
                return None
            worst = max(worst, r[1])
    return worst


def _execute(sc, ctx):
    from pympc.geometry.polyhedron import Polyhedron
    from pympc.dynamics.discrete_time_systems import AffineSystem, PieceWiseAffineSystem
    nx, nu = sc['nx'], sc['nu']
    n = nx + nu
    dom, refs = [], []
    for A, b in sc['cells']:
        A, b = np.array(A, float).reshape(-1, n), np.array(b, float)
        if not len(b):
            return
        refs.append(RefPoly(A, b))
        dom.append(Polyhedron(A.copy(), b.copy()))
    sys_ = [AffineSystem(.5 * np.eye(nx), np.ones((nx, nu)), np.zeros(nx)) for _ in dom]
    S = PieceWiseAffineSystem(sys_, dom)
    asked = changed = 0
    for i, op in enumerate(sc['ops']):
        k = op['d'] % len(dom)
        what = op['op']
        ctx.mark(what, len(dom), n)
        ctx.simtime += 1
        if what == 'rebuild':
            S = lib(lambda: PieceWiseAffineSystem(list(sys_), dom), 'rebuilding')[1]
            ctx.count('fault/crash-rebuild')
        elif what == 'tighten':
            R, P = refs[k], dom[k]
            if op['a'] is not None:
                a, b = np.array([op['a']]), np.array([op['b']])
            else:
                j = int(op['i'] * R.b.size) % R.b.size
                a, b = R.A[j:j + 1].copy(), R.b[j:j + 1] - op['by']
            lib(lambda: P.add_inequality(a, b), 'tightening a domain')
            refs[k] = R.with_ineq(a, b)
            changed += asked > 0
        elif what == 'question':
            lib(lambda: getattr(dom[k], op['q']), op['q'])
        elif what == 'mode':
            x = np.array(op['x'])
            if 'off' in op:
                # just outside or inside of one domain
                c = refs[k].cheb()
                g = refs[k].A.dot(x)
                if c[0] == 'opt' and .01 < c[1] < 1e3 and np.any(g > 1e-3):
                    c = c[2]
                    t = float(np.min((refs[k].b - refs[k].A.dot(c))[g > 1e-3] / g[g > 1e-3]))
                    x = c + (t + op['off'] / np.linalg.norm(x)) * x
            inside = [R.contains(x) for R in refs]
            if None not in inside:
                m = lib(lambda: S.get_mode(x[:nx], x[nx:]), 'get_mode')[1]
                if m is None and any(inside) or m is not None and (not 0 <= int(m) < len(inside) or not inside[int(m)]):
                    raise Violation('wrong-answer', 'the mode of %s is %s, the domains that contain it: %s' % (x, m, [j for j in range(len(inside)) if inside[j]]))
                ctx.count('checked/mode')
        else:
            r = depth(refs)
            tol = op.get('tol')
            ask = (lambda: S.is_well_posed()) if tol is None else (lambda: S.is_well_posed(tol))
            fault = op.get('fault')
            if fault and 'k' not in fault:
                tr = []
                SEAM.run(ask, trace=tr, rng=1)
                fault['k'] = place_fault(tr, fault['fs'], fault['fo']) or 0
            before = [rows(P) for P in dom]
            st, v = lib(ask, 'is_well_posed', {'k': fault['k'], 'exc': fault['exc']} if fault and fault['k'] else None)
            if st == 'failed':
                changed += 1
                ctx.log(i, 'failed')
                st, v = lib(ask, 'is_well_posed')
            ctx.log(i, bool(v))
            if any(differs(rows(P), b) for P, b in zip(dom, before)):
                raise Violation('altered', 'a domain was changed by the question')
            asked += 1
            band = (1e-9, 1e-5) if tol is None else (.99 * tol, 1.01 * tol)
            if r is None or band[0] < r < band[1]:
                ctx.count('cannot-tell')
                continue
            if bool(v) != (r <= band[0]):
                raise Violation('wrong-answer', 'well posed: %s, but the deepest common part of two domains has radius %s' % (v, r))
            ctx.count('checked/%s' % bool(v))
    if changed and asked > 1:
        ctx.nontrivial = True
