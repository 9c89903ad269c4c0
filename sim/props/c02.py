"""C02: an operation that fails leaves every polyhedron exactly as meaningful as before."""
from sim.core import Violation
from sim.world import World, Gen, generate_ops, rnd, gen_row, QRY, MUT, NEW
from sim.seams import SEAM

ID = 'C02'
RUNS = {'quick': 7000, 'thorough': 50000}
TIME_UNIT = 'operations'
RULE = ('A run is a seeded history of operations on polyhedra in which some operations are given invalid arguments and some are '
        'made to fail from inside (backend error of nnls/qhull/linear algebra, allocation failure, interrupt) at one of the '
        'calls they make, chosen from a dry run; afterwards the rows, every cached answer and repeated queries are compared with the '
        'reference model in which the failed operation did nothing. Non-trivial: at least one fault or refusal occurred and the '
        'same polyhedron answered afterwards.')
REAL = ['pympc.geometry (whole)', 'pympc.optimization.solvers.pnnls', 'numpy, scipy.nnls, qhull']
STUB = ['the failing call itself: the simulator raises instead of letting it run']
ASSUMPTIONS = ['faults surface as exceptions of the outgoing call (or KeyboardInterrupt/MemoryError at such a call), not between two bytecodes without a call',
               'data of moderate scale in general position; instances within 1e-4 of a decision boundary are not judged']


def bad_op(rng, g, o):
    n = g.dim[o]
    k = rng.choice(['rows', 'cols', 'index', 'bounds', 'boundsize', 'eqrows', 'eqcols', 'ub', 'inter', 'nonaffine', 'dims', 'ctor'])
    op = {'o': o, 'bad': True, 'idx': None}
    if k == 'rows':
        op.update(op='badcall', f='add_inequality', a=[[gen_row(rng, n), gen_row(rng, n)], [rnd(rng, -1, 1)]])
    elif k == 'cols':
        op.update(op='badcall', f='add_inequality', a=[[gen_row(rng, n + 1)], [rnd(rng, -1, 1)]])
    elif k == 'eqrows':
        op.update(op='badcall', f='add_equality', a=[[gen_row(rng, n)], [.1, .2]])
    elif k == 'eqcols':
        op.update(op='badcall', f='add_equality', a=[[gen_row(rng, n + 1)], [.1]])
    elif k == 'index':
        op.update(op='badcall', f=rng.choice(['add_inequality', 'add_equality']), a=[[gen_row(rng, 1, 1.)], [.3]], i=[n + rng.randint(0, 2)])
    elif k == 'bounds':
        op.update(op='badcall', f='add_bounds', a=[[-1.] * n, [1.] * (n + 1)])
    elif k == 'boundsize':
        op.update(op='badcall', f='add_bounds', a=[[-1.] * (n + 1), [1.] * (n if rng.random() < .5 else n - 1)])
    elif k == 'inter':
        op.update(op='badcall', f='intersection', a=[], other=n + rng.choice([1, 2]) if n < 2 or rng.random() < .5 else n - 1)
    elif k == 'nonaffine':
        op.update(op='badcall', f=rng.choice(['add_symbolic_inequality', 'add_symbolic_equality']), a=[], power=n)
    elif k == 'ctor':
        op.update(op='badcall', f='ctor', a=[], ctor=rng.randint(0, 9))
    elif k == 'dims':
        op.update(op='badcall', f='project_to', a=[], dims=[n + rng.randint(0, 2)] + ([0] if rng.random() < .5 else []))
    else:
        op.update(op='badcall', f=rng.choice(['add_upper_bound', 'add_lower_bound']), a=[[1.] * (n + 1)])
    return op


def generate(rng, tier):
    g = generate_ops(rng, rng.randint(6, 13 if tier == 'quick' else 20), [.3, 2.5, 1., 1.5])
    ops, kinds = [], rng.choice([None, None, ['nnls'], ['qhull', 'linalg', 'nnls']])
    exc = rng.choice([['backend'], ['backend', 'interrupt'], ['backend', 'memory', 'interrupt']])
    rate = rng.choice([.25, .5, .8])
    for op in g.ops:
        r = rng.random()
        o = op['o']
        if op['op'] in MUT + QRY and o in g.dim and rng.random() < .25:
            ops.append(bad_op(rng, g, o))
            if rng.random() < .5:
                ops.append({'op': rng.choice(['empty', 'bounded', 'radius', 'vertices', 'center']), 'o': o})
        if r < rate and op['op'] not in ('hull', 'new', 'copy', 'deepcopy'):
            # the failing attempt first, then the same operation again (a caller's retry)
            f = dict(op)
            f['fault'] = {'exc': rng.choice(exc), 'fs': round(rng.random(), 4), 'fo': round(rng.random(), 4)}
            if kinds:
                f['fault']['kinds'] = kinds
            if rng.random() < .3:
                f['fault']['late'] = rng.choice([0, 0, 1, 1, 2, 3, 4])
            if op['op'] in NEW:
                f['o'] = op['o']
            ops.append(f)
            for _ in range(rng.randint(0, 2)):
                tgt = op['o'] if op['op'] in MUT + QRY else op.get('p', op['o'])
                ops.append({'op': rng.choice(['empty', 'bounded', 'radius', 'vertices', 'center', 'minimal']), 'o': tgt})
        ops.append(op)
    return {'ops': ops}


class FaultWorld(World):

    def do_badcall(self, op):
        import numpy as np
        if op['o'] not in self.obj:
            return None
        p = self.obj[op['o']]
        if p.A.shape[1] != self.ref[op['o']].n:
            return None
        if 'ctor' in op:
            P, n = self.P, p.A.shape[1]
            I, e = np.eye(n), np.ones(n)
            go = [lambda: P.from_lower_bound(-e, list(range(n))), lambda: P.from_upper_bound(e, list(range(n))),
                  lambda: P.from_bounds(-e, e, list(range(n))), lambda: P.from_bounds(-e, np.ones(n + 1)),
                  lambda: P.from_bounds(np.ones(n + 2), e), lambda: P(I, np.ones(n + 1)), lambda: P(I, e[:, None]),
                  lambda: P(I, e, I[:1]), lambda: P(I, e, d=e[:1]), lambda: P(I, e, I[:1], np.ones(2))][op['ctor'] % 10]
            return go, (lambda v: None)
        args = [np.array(a, dtype=float) for a in op['a']]
        if 'i' in op:
            args.append(list(op['i']))
        if 'other' in op:
            m = op['other']
            args.append(self.P(np.vstack((np.eye(m), -np.eye(m))), np.ones(2 * m)))
        if 'power' in op:
            import sympy as sp
            x = sp.Matrix(sp.symbols('y0:%d' % op['power']))
            args = [x, sp.Matrix([x[0] + 1, x[0] ** 2 - 1])]
        if 'dims' in op:
            args.append(list(op['dims']))
        return (lambda: getattr(p, op['f'])(*args)), (lambda v: None)


def execute(sc, ctx):
    w = FaultWorld(ctx)
    hurt = set()
    for i, op in enumerate(sc['ops']):
        r = w.run(op, i)
        if r == 'failed':
            for k in ('o', 'p', 'q'):
                if k in op:
                    hurt.add(op[k])
            # nothing else may have suffered either
            for o in w.obj:
                w.check_rows(o, 'after the failure of %s' % op['op'])
        elif r == 'ok' and op['o'] in hurt:
            ctx.nontrivial = True
    for j, o in enumerate(sorted(w.obj)):
        for q in ('vertices', 'empty', 'center', 'bounded', 'radius'):
            w.run({'op': q, 'o': o}, 1000 + 10 * j)
        w.check_rows(o, 'at the end')
