"""C01: a polyhedron's answers follow its current constraints through any history."""
from sim.world import World, generate_ops

ID = 'C01'
RUNS = {'quick': 9000, 'thorough': 60000}
TIME_UNIT = 'operations'
RULE = ('A run is a seeded history of 8-18 operations on up to 8 polyhedra of dimension 1-4 (constructors, additions, '
        'normalisation, pruning, copies, intersections, products, projections) with queries asked before and after the '
        'changes; every answer is compared with a reference model. Non-trivial: some polyhedron was queried, then changed or '
        'used to derive another, then queried again.')
REAL = ['pympc.geometry (whole)', 'pympc.optimization.solvers.pnnls', 'numpy, scipy.nnls, qhull, sympy']
STUB = ['none; reference answers from HiGHS and brute-force vertex enumeration']
ASSUMPTIONS = ['data of moderate scale (|entries| <= ~10) in general position; instances within 1e-4 of a decision boundary are not judged']


def generate(rng, tier):
    rates = [rng.choice([.3, 1.]), rng.choice([1., 2., 4.]), rng.choice([.5, 1.5]), rng.choice([1., 2.5])]
    g = generate_ops(rng, rng.randint(8, 18 if tier == 'quick' else 26), rates)
    return {'ops': g.ops}


def execute(sc, ctx):
    w = World(ctx)
    asked, changed = set(), set()
    from sim.world import MUT, QRY
    for i, op in enumerate(sc['ops']):
        r = w.run(op, i)
        if r == 'skip':
            continue
        if op['op'] in QRY:
            if op['o'] in changed:
                ctx.nontrivial = True
                ctx.count('asked-changed-asked')
            asked.add(op['o'])
        elif op['op'] in MUT:
            if op['o'] in asked:
                changed.add(op['o'])
        elif any(op.get(k) in asked for k in 'pq'):
            changed.add(op['o'])
    # every object answers for its whole history
    for j, o in enumerate(sorted(w.obj)):
        for q in ('empty', 'bounded', 'radius', 'vertices', 'center'):
            w.run({'op': q, 'o': o}, 1000 + 10 * j)
