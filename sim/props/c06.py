"""C06: the solvers' answers are honest, also when a backend fails or stops early."""
import copy
import itertools
import warnings
import numpy as np

from sim.core import Violation
from sim.ref import lp, qp, qp_margin
from sim.seams import SEAM, SimStop, place_fault
from sim.world import differs

ID = 'C06'
RUNS = {'quick': 10000, 'thorough': 60000}
TIME_UNIT = 'program solves'
RULE = ('A run is a seeded sequence of linear, quadratic and mixed-integer quadratic programs (feasible, infeasible, unbounded; with and '
        'without equalities; both solvers) solved with backend faults injected, gurobi stopped early by its own limits, or legal solver '
        'knobs varied; every answer is certified (feasibility, optimality conditions, reference optimum). Non-trivial: a fault, limit '
        'or knob was applied, or the program has no optimum.')
REAL = ['pympc.optimization.programs, solvers.pnnls, solvers.gurobi', 'scipy nnls, gurobi']
STUB = ['the failing backend call']
ASSUMPTIONS = ['programs whose feasibility margin is within 1e-4 of zero, or badly scaled, are not judged', 'gurobi default MIP gap (1e-4)']

KNOBS = [{'Presolve': 0}, {'Presolve': 2}, {'Seed': 7}, {'Seed': 123}, {'Method': 1}, {'Method': 0}, {'Method': 2}, {'ScaleFlag': 0}]
LIMITS = {
    'lp': [{'IterationLimit': 0}, {'IterationLimit': 1}, {'TimeLimit': 0}, {'IterationLimit': 2, 'Presolve': 0}, {'WorkLimit': 0}],
    'qp': [{'BarIterLimit': 0}, {'BarIterLimit': 1}, {'BarIterLimit': 3}, {'TimeLimit': 0}, {'IterationLimit': 0}, {'WorkLimit': 0}],
    'miqp': [{'NodeLimit': 0}, {'SolutionLimit': 1}, {'TimeLimit': 0}, {'SolutionLimit': 1, 'Heuristics': 0}, {'IterationLimit': 0},
             {'WorkLimit': 0}, {'NodeLimit': 1, 'Presolve': 0}, {'BestObjStop': 1e6}, {'Cutoff': -1e6}]}


def r2(rng, lo, hi):
    return round(rng.uniform(lo, hi), 2)


def row(rng, n, dense=.8):
    while True:
        a = [r2(rng, -2, 2) if rng.random() < dense else 0. for _ in range(n)]
        if sum(v * v for v in a) > .2:
            return a


def program(rng):
    kind = rng.choices(['lp', 'qp', 'miqp'], [.45, .35, .2])[0]
    n = (rng.randint(1, 5) if rng.random() < .95 else rng.randint(6, 8)) if kind != 'miqp' else rng.choice([0, 1, 1, 2, 2, 3, 3])
    nb = rng.randint(1, 4) if kind == 'miqp' else 0
    N = n + nb
    far = rng.choice([1., 1., 1., 8., 20.])          # where the constraints sit
    c = [r2(rng, -1.5, 1.5) * far for _ in range(N)]
    A, b, C, d = [], [], [], []
    state = rng.choices(['ok', 'inf', 'free'], [.65, .17, .18])[0]
    if state != 'free' or kind == 'miqp':
        for i in range(n):
            for s in (1., -1.):
                r = [0.] * N
                r[i] = s * rng.choice([1., 1., 2., .5])
                A.append(r)
                b.append(round(rng.uniform(.3, 3.) + r[i] * c[i], 4))
    for _ in range(rng.randint(1, 5)):
        a = row(rng, N)
        A.append(a)
        slack = rng.choice([0., rng.uniform(.05, 2.), rng.uniform(.05, 2.)]) if kind == 'lp' else rng.uniform(.05, 2.)
        cc = c if kind != 'miqp' else c[:n] + [float(rng.randint(0, 1)) for _ in range(nb)]
        b.append(round(sum(x * y for x, y in zip(a, cc)) + max(slack, .01), 4))
    if rng.random() < .35 and n > 1:
        for _ in range(rng.randint(1, min(2, n - 1))):
            a = row(rng, N)
            if kind == 'miqp' and rng.random() < .5:
                a = a[:n] + [0.] * nb
            C.append(a)
            d.append(round(sum(x * y for x, y in zip(a, cc if kind == 'miqp' else c)), 4))
    if state == 'inf':
        a = row(rng, N)
        v = r2(rng, -2, 2) * far
        A += [a, [-x for x in a]]
        b += [round(v, 4), round(-v - rng.choice([rng.uniform(.3, 2.), rng.uniform(.02, .2)]), 4)]
    p = {'kind': kind, 'n': n, 'nb': nb, 'A': A, 'b': b, 'C': C, 'd': d, 'f': row(rng, N) if rng.random() < .9 else [0.] * N}
    if kind != 'lp':
        M = [[rng.uniform(-1, 1) for _ in range(N)] for _ in range(N)]
        H = np.array(M).T.dot(np.array(M)) + rng.uniform(.2, 1.) * np.eye(N)
        if nb and rng.random() < .6:
            H[n:, :] = 0.
            H[:, n:] = 0.
        p['H'] = np.round(H, 3).tolist()
        if kind == 'qp' and state == 'ok' and rng.random() < .15:
            # the unconstrained optimum is almost feasible: constraints that are barely active
            p['f'] = np.round(-np.array(p['H']).dot(c), 6).tolist()
            for _ in range(rng.randint(1, 2)):
                a = row(rng, N)
                A.append(a)
                b.append(round(sum(x * y for x, y in zip(a, c)) - rng.choice([3e-5, 1e-4, 3e-4, 1e-3, .01]), 6))
    # said twice
    if rng.random() < .1:
        i, t = rng.randrange(len(A)), rng.choice([1., 2., .5])
        A.append([v * t for v in A[i]])
        b.append(b[i] * t)
    if C and rng.random() < .12:
        i, t = rng.randrange(len(C)), rng.choice([1., -1., 2.])
        C.append([v * t for v in C[i]])
        d.append(d[i] * t)
        p['twice'] = len(C) - 1
        if rng.random() < .3:          # and not the same
            d[-1] = round(d[-1] + rng.choice([-1., 1.]) * rng.uniform(.1, 1.), 4)
            p['clash'] = True
    # units: of the cost and of every row
    k = rng.choice([1., 1., 1., 1., .1, .01, 10.])
    if k != 1.:
        p['f'] = [round(v * k, 6) for v in p['f']]
        if 'H' in p:
            p['H'] = np.round(np.array(p['H']) * k, 6).tolist()
    if rng.random() < .25:
        for i in range(len(A)):
            k = rng.choice([1., 1., .1, 5., 20.])
            A[i], b[i] = [round(v * k, 6) for v in A[i]], round(b[i] * k, 6)
    p['solver'] = 'gurobi' if kind == 'miqp' else rng.choice(['pnnls', 'gurobi'])
    # how the caller's arrays come: no rows of equalities at all, whole numbers, other memory layouts
    p['form'] = rng.choice([''] * 6 + ['no-rows', 'no-rows', 'int', 'fortran', 'view'])
    if p['form'] == 'int':
        for k in 'AbCdf':
            p[k] = np.round(np.array(p[k])).astype(int).tolist()
        for M, m in ('Ab', 'Cd'):
            keep = [i for i, r in enumerate(p[M]) if any(r)]
            p[M], p[m] = [p[M][i] for i in keep], [p[m][i] for i in keep]
        if not p['A']:
            p['A'], p['b'] = [[1] * N], [3]
    return p


def generate(rng, tier):
    ops = []
    mode = rng.choice(['calm', 'faults', 'limits', 'mixed'])
    for _ in range(rng.randint(2, 6)):
        p = program(rng)
        op = {'op': 'solve', 'p': p}
        u = rng.random()
        if mode in ('faults', 'mixed') and u < .5:
            op['fault'] = {'exc': rng.choice(['backend', 'backend', 'interrupt', 'memory']), 'fs': round(rng.random(), 4), 'fo': round(rng.random(), 4)}
        elif mode in ('limits', 'mixed') and p['solver'] == 'gurobi':
            if rng.random() < .7:
                op['limit'] = rng.choice(LIMITS[p['kind']])
            else:
                op['knob'] = rng.choice(KNOBS if p['kind'] == 'lp' else KNOBS[:4])
            op['via'] = rng.choice(['seam', 'kwargs'])
        ops.append(op)
        if rng.random() < .1:
            ops.append({'op': 'refuse', 'p': p, 'a': rng.randint(0, 3)})
        if rng.random() < .35:
            # the same program again, undisturbed, or by the other solver
            q = dict(p)
            if p['kind'] != 'miqp' and rng.random() < .5:
                q['solver'] = {'pnnls': 'gurobi', 'gurobi': 'pnnls'}[p['solver']]
            ops.append({'op': 'solve', 'p': q})
    return {'ops': ops}


def data(p):
    g = lambda k: np.array(p[k], dtype=float)
    N = p['n'] + p['nb']
    A, b = g('A').reshape(-1, N), g('b')
    C, d = (g('C').reshape(-1, N), g('d')) if p['C'] else (None, None)
    H = g('H') if 'H' in p else None
    return H, g('f'), A, b, C, d


def truth(p):
    """('opt', value, margin ok?) / ('none', why) / None when not clear-cut"""
    H, f, A, b, C, d = data(p)
    nr = np.linalg.norm(A, axis=1)
    if p.get('clash') and p.get('form') != 'int':
        return ('none', 'infeasible')
    if 'twice' in p and p.get('form') != 'int':
        C, d = np.delete(C, p['twice'], axis=0), np.delete(d, p['twice'])
    if C is not None and np.linalg.svd(C, compute_uv=False)[-1] < .1:
        return None
    if p['kind'] == 'miqp':
        best = None
        for bits in itertools.product([0., 1.], repeat=p['nb']):
            z = np.array(bits)
            n = p['n']
            Ax, bx = A[:, :n], b - A[:, n:].dot(z)
            live = np.linalg.norm(Ax, axis=1) > 1e-9
            m0 = np.min(bx[~live]) if np.any(~live) else 1.
            if abs(m0) < 1e-4:
                return None
            if m0 < 0:
                continue
            Cx, dx = (C[:, :n], d - C[:, n:].dot(z)) if C is not None else (None, None)
            if Cx is not None and np.linalg.svd(Cx, compute_uv=False)[-1] < .1:
                return None
            if n == 0:
                v = .5 * z.dot(H).dot(z) + f.dot(z)
                best = v if best is None else min(best, v)
                continue
            m = qp_margin(Ax[live] / np.linalg.norm(Ax[live], axis=1)[:, None], bx[live] / np.linalg.norm(Ax[live], axis=1), Cx, dx)
            if m is None or abs(m) < 1e-4:
                return None
            if m < 0:
                continue
            r = qp(H[:n, :n], f[:n] + H[:n, n:].dot(z), Ax[live], bx[live], Cx, dx)
            if r[0] != 'opt':
                return None
            v = r[1] + .5 * z.dot(H[n:, n:]).dot(z) + f[n:].dot(z)
            best = v if best is None else min(best, v)
        return ('none', 'infeasible') if best is None else ('opt', best)
    m = qp_margin(A / nr[:, None], b / nr, C, d)
    if m is None or abs(m) < 1e-4:
        return None
    if m < 0:
        return ('none', 'infeasible')
    if p['kind'] == 'qp':
        r = qp(H, f, A, b, C, d)
        if r[0] != 'opt' or np.max(np.abs(r[2])) > 1e3:
            return None
        return ('opt', r[1])
    # a recession direction along which the cost decreases, with margin?
    N = len(f)
    Z = np.vstack((A / nr[:, None], np.eye(N), -np.eye(N)))
    fn = f / max(1e-9, np.linalg.norm(f))
    q = lp(fn, Z, np.concatenate((np.zeros(A.shape[0]), np.ones(2 * N))), C, None if C is None else np.zeros(C.shape[0]))
    if q[0] != 'opt':
        return None
    if q[1] < -.02:
        return ('none', 'unbounded')
    q = lp(fn, Z, np.concatenate((1e-4 * np.ones(A.shape[0]), np.ones(2 * N))), C, None if C is None else np.zeros(C.shape[0]))
    r = lp(f, A, b, C, d)
    if r[0] != 'opt' or np.max(np.abs(r[2])) > 1e3 or q[0] != 'opt' or q[1] < -.05:
        return None
    return ('opt', r[1])


def judge(p, sol, want, excused, ctx):
    H, f, A, b, C, d = data(p)
    if not isinstance(sol, dict) or 'min' not in sol or 'argmin' not in sol:
        raise Violation('malformed', 'the solver answered %r' % (sol,))
    extra = [] if p['kind'] == 'miqp' else ['active_set', 'multiplier_inequality']
    miss = [k for k in ['min', 'argmin'] + extra if sol.get(k) is None]
    if sol['min'] is None:
        if len(miss) != 2 + len(extra) or sol.get('multiplier_equality') is not None:
            raise Violation('half-answer', 'no minimum, but %s' % {k: v for k, v in sol.items() if v is not None})
        if excused:
            ctx.count('excused-none')
            return
        if want[0] == 'opt':
            raise Violation('false-none', '%s solved by %s has the optimum %s but the answer is None' % (p['kind'], p['solver'], want[1]))
        ctx.count('checked/none-%s' % want[1])
        return
    if miss:
        raise Violation('half-answer', 'a minimum, but no %s' % miss)
    x = np.asarray(sol['argmin'], float)
    N = len(f)
    if x.shape != (N,) or not np.all(np.isfinite(x)):
        raise Violation('malformed', 'argmin %s' % x)
    if want[0] != 'opt':
        raise Violation('false-optimum', '%s program, but the answer is %s at %s' % (want[1], sol['min'], x))
    sc = 1 + np.max(np.abs(x)) + np.max(np.abs(b))
    g = np.max(A.dot(x) - b)
    if g > 1e-5 * sc:
        raise Violation('infeasible-answer', 'the answer violates an inequality by %s' % g)
    if C is not None and np.max(np.abs(C.dot(x) - d)) > 1e-5 * sc:
        raise Violation('infeasible-answer', 'the answer violates an equality by %s' % np.max(np.abs(C.dot(x) - d)))
    if p['nb'] and np.max(np.abs(x[p['n']:] - np.round(np.clip(x[p['n']:], 0, 1)))) > 1e-4:
        raise Violation('infeasible-answer', 'binaries %s' % x[p['n']:])
    cost = f.dot(x) + (.5 * x.dot(H).dot(x) if H is not None else 0.)
    tol = 1e-5 if p['kind'] != 'miqp' else 3e-4
    if abs(cost - sol['min']) > tol * (1 + abs(cost)):
        raise Violation('wrong-minimum', 'the answer costs %s, reported %s' % (cost, sol['min']))
    if abs(cost - want[1]) > max(tol, 5e-5) * (1 + abs(want[1])):
        raise Violation('not-optimal', 'the answer costs %s, the optimum is %s' % (cost, want[1]))
    ctx.count('checked/optimum-%s-%s' % (p['kind'], p['solver']))
    if p['kind'] == 'miqp':
        return
    y = np.asarray(sol['multiplier_inequality'], float)
    if y.shape != b.shape:
        raise Violation('malformed', '%s multipliers for %d inequalities' % (y.shape, b.size))
    z = sol.get('multiplier_equality')
    if z is not None and np.size(z) == 0:
        z = None
    if (z is None) != (C is None):
        raise Violation('half-answer', 'multipliers of the equalities: %s' % z)
    grad = f + (H.dot(x) if H is not None else 0.) + A.T.dot(y) + (C.T.dot(np.asarray(z, float)) if C is not None else 0.)
    ys = 1 + np.max(np.abs(y))
    mtol = 1e-5 if p['solver'] == 'pnnls' else 1e-4
    if np.max(np.abs(grad)) > mtol * ys * (1 + np.max(np.abs(A))):
        raise Violation('multipliers', 'the gradient of the Lagrangian is %s' % grad)
    if np.min(y) < -mtol * ys:
        raise Violation('multipliers', 'negative multiplier %s' % np.min(y))
    if np.max(np.abs(y * (A.dot(x) - b))) > 10 * mtol * ys * sc:
        raise Violation('multipliers', 'complementarity is off by %s' % np.max(np.abs(y * (A.dot(x) - b))))
    act = [int(i) for i in sol['active_set']]
    if len(set(act)) != len(act) or any(i < 0 or i >= b.size for i in act):
        raise Violation('active-set', 'active set %s' % act)
    for i in act:
        if b[i] - A[i].dot(x) > 1e-3 * sc:
            raise Violation('active-set', 'inequality %d is in the active set %s with residual %s' % (i, act, b[i] - A[i].dot(x)))
    for i in range(b.size):
        if y[i] > 2 * mtol and i not in act:
            raise Violation('active-set', 'inequality %d has multiplier %s and is not in the active set %s' % (i, y[i], act))
    ctx.count('checked/multipliers')


def execute(sc, ctx):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        for i, op in enumerate(sc['ops']):
            (refuse if op['op'] == 'refuse' else one)(op, i, ctx)


def refuse(op, i, ctx):
    """Calls that cannot be answered honestly."""
    from pympc.optimization import programs
    p, a = op['p'], op['a']
    H, f, A, b, C, d = data(p)
    fn = {'lp': programs.linear_program, 'qp': programs.quadratic_program, 'miqp': programs.mixed_integer_quadratic_program}[p['kind']]
    args = ([p['n']] if p['kind'] == 'miqp' else []) + ([H] if H is not None else []) + [f, A, b]
    if a < 2 or p['solver'] == 'gurobi':
        s = ['cplex', 'Gurobi', None, ''][a]
        call, what = lambda: fn(*args, solver=s), 'the unknown solver %r' % s
    else:
        kw = {'C': A[:1]} if a == 2 else {'d': b[:1]}
        call, what = lambda: fn(*args, solver='pnnls', **kw), 'equalities with one side only'
    st, v = SEAM.run(call, rng=i + 1)
    if st != 'exc':
        raise Violation('accepted', '%s was not refused' % what)
    if not isinstance(v, ValueError):
        raise Violation('crash', '%s raised %r' % (what, v))
    ctx.count('refused')


def one(op, i, ctx):
    from pympc.optimization import programs
    from pympc.optimization.solvers import gurobi as G
    p = op['p']
    want = truth(p)
    if want is None:
        ctx.count('cannot-tell')
        return
    H, f, A, b, C, d = data(p)
    params = op.get('limit') or op.get('knob')
    args = [a for a in ([p['n']] if p['kind'] == 'miqp' else []) + ([H] if H is not None else []) + [f, A, b]] + [C, d]
    form = p.get('form')
    if form == 'no-rows' and C is None:
        args[-2:] = [np.zeros((0, len(f))), np.zeros(0)]
    elif form == 'int':
        k = len(args) - 5
        args[k:] = [None if a is None else a.astype(int) for a in args[k:]]
    elif form == 'fortran':
        args = [np.asfortranarray(a) if isinstance(a, np.ndarray) else a for a in args]
    elif form == 'view':
        args = [np.repeat(a, 2, axis=-1)[..., ::2] if isinstance(a, np.ndarray) else a for a in args]
    keep = copy.deepcopy(args)
    if params and op.get('via') == 'kwargs':
        fn = {'lp': G.linear_program, 'qp': G.quadratic_program, 'miqp': G.mixed_integer_quadratic_program}[p['kind']]
        call = lambda: fn(*args, **params)
        limit = None
    else:
        fn = {'lp': programs.linear_program, 'qp': programs.quadratic_program, 'miqp': programs.mixed_integer_quadratic_program}[p['kind']]
        call = lambda: fn(*args, solver=p['solver'])
        limit = {'k': 1, 'params': params} if params else None
    fault = op.get('fault')
    if fault and 'k' not in fault:
        tr = []
        SEAM.run(call, trace=tr, rng=1)
        fault['k'] = place_fault(tr, fault['fs'], fault['fo']) or 0
    fault = {'k': fault['k'], 'exc': fault['exc']} if fault and fault['k'] else None
    st, v = SEAM.run(call, fault=fault, limit=limit, rng=i + 1)
    fired = SEAM.fired
    what = (fired or {}).get('kind', '') + str(params or '')
    ctx.mark(p['kind'], p['solver'], len(b), len(f), want[0], what, (fired or {}).get('callee'))
    if fired or params or want[0] != 'opt':
        ctx.nontrivial = True
    if params and op.get('via') == 'kwargs':
        ctx.count('fault/' + ('limit:' if op.get('limit') else 'knob:') + '+'.join(sorted(params)))
    ctx.simtime += 1
    if st == 'exc':
        ctx.log(i, p['kind'], p['solver'], 'raised', type(v).__name__)
        if isinstance(v, SimStop):
            raise Violation('no-progress', '%s did not end within its step budget' % p['kind'])
        if fired and fault:
            ctx.count('failed-by-fault')
            return
        if op.get('limit'):
            # gurobi may refuse an attribute after an early stop: raising is honest
            ctx.count('raised-after-limit')
            return
        raise Violation('crash', '%s by %s raised %r' % (p['kind'], p['solver'], v))
    ctx.log(i, p['kind'], p['solver'], 'min', None if not isinstance(v, dict) or v.get('min') is None else float(v['min']))
    try:
        judge(p, v, want, bool(op.get('limit')) or bool(fired and fault), ctx)
    except Violation:
        raise
    except Exception as e:
        raise Violation('malformed', '%s by %s answered %r: %r' % (p['kind'], p['solver'], v, e))
    why = differs([a for a in args], keep)
    if why:
        raise Violation('altered', 'the solver changed its data: %s' % why)
