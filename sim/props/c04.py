"""C04: questions asked by several threads at once get the answers they would get one after the other."""
import copy
import dis
import warnings
import numpy as np

from sim.core import Violation
from sim.seams import SEAM, SimStop, Injected
from sim.sched import Sched
from sim.world import World, Gen, QRY, gen_row
from sim.plants import gen_linear, Linear
from sim.hybrid import spec_pwa, Hybrid
from sim.props import c11

ID = 'C04'
RUNS = {'quick': 4500, 'thorough': 30000}
TIME_UNIT = 'operations'
RULE = ('A run is 2-4 threads that ask 1-4 questions each about shared polyhedra, plants and controllers, under a seeded schedule of 1-6 '
        'preemptions placed at bytecode instructions of pympc (half of them just after a write to an object), sometimes with one backend '
        'call made to fail in one of the threads; every answer, and every answer to the same questions asked again afterwards, is compared with '
        'the reference. Non-trivial: at least one preemption took effect; distinct: by the sequence of (thread, thread, function, instruction) of the switches.')
REAL = ['pympc.geometry, optimization, dynamics, control (real threads, one runnable at a time)', 'numpy, scipy, qhull, gurobi']
STUB = ['the thread scheduler', 'the failing call when a fault is injected']
ASSUMPTIONS = ['threads only ask; changing an object while others ask about it is outside the property',
               'preemption inside C code (numpy, qhull, gurobi) is not simulated']

LIN = ['ff', 'ff', 'fb', 'sim', 'simcl', 'condense', 'dare', 'mcais', 'controllable', 'table', 'table', 'region', 'region', 'feasible']
PWA = ['hff', 'hff', 'hsim', 'hmode', 'hcondense', 'hseq', 'hposed']


def generate(rng, tier):
    sc = {'setup': [], 'subs': [], 'ops': []}
    nt = rng.choice([2, 2, 2, 3, 3, 4])
    kind = rng.choices(['poly', 'plant', 'both'], [.6, .28, .12])[0]
    g = Gen(rng, None)
    if kind != 'plant':
        for _ in range(rng.choice([1, 1, 2, 3])):
            g.new(rng.choice([1, 2, 2, 3]) if rng.random() < .5 or not g.dim else g.dim[list(g.dim)[0]])
        for _ in range(rng.choice([0, 0, 1, 2])):
            g.mutate(rng.choice(list(g.dim)))
        wide = [o for o in g.dim if g.dim[o] > 1 and not g.neq[o]]
        if wide and rng.random() < .35:
            o = rng.choice(wide)
            g.ops.append({'op': 'eq', 'o': o, 'A': [gen_row(rng, g.dim[o], .3)], 'b': [round(rng.uniform(-.4, .4), 2)], 'idx': None})
            g.neq[o] += 1
        if rng.random() < .25:
            g.derive(rng.choice(list(g.dim)))
        if rng.random() < .3:
            g.query(rng.choice(list(g.dim)))
        sc['setup'] = g.ops
        g.ops = []
    if kind != 'poly':
        for _ in range(rng.choice([1, 1, 2])):
            if rng.random() < .7:
                sc['subs'].append({'kind': 'lin', 'table': rng.random() < .8, 'spec': gen_linear(rng, nx=rng.choice([1, 2, 2]), N=rng.choice([1, 2, 2]))})
            else:
                sc['subs'].append({'kind': 'pwa', 'spec': spec_pwa(rng, nm=2, N=rng.choice([1, 2]))})
    names = list(g.dim)
    hot = rng.choice(names) if names else None       # threads meet on the same object
    q0 = rng.choice(['vertices', 'vertices', 'center', 'center', 'radius', 'bounded', 'empty', 'contains', 'incl'])
    h0 = [rng.choice(['table', 'table', 'region', 'ff', 'dare', 'controllable', 'mcais', 'sim', 'feasible'] if s['kind'] == 'lin' else PWA) for s in sc['subs']]
    for t in range(nt):
        for k in range(rng.randint(1, 4)):
            if sc['subs'] and (not names or rng.random() < .5):
                s = rng.randrange(len(sc['subs']))
                sp = sc['subs'][s]['spec']
                op = {'q': h0[s] if rng.random() < .6 else rng.choice(LIN if sc['subs'][s]['kind'] == 'lin' else PWA), 's': s, 'z': [round(rng.gauss(0, 1), 3) for _ in range(sp['nx'])],
                      'r': rng.choice([.1, .5, .9, 1.3]), 'u': [[round(rng.uniform(-1, 1), 2) for _ in range(sp['nu'])] for _ in range(rng.randint(1, 3))],
                      'n': rng.randint(1, 4), 'w': [rng.randrange(2) for _ in range(rng.randint(1, 3))]}
            else:
                o = hot if rng.random() < .85 else rng.choice(names)
                if rng.random() < .12:
                    L = len(g.ops)
                    g.derive(o)
                    if len(g.ops) == L:
                        continue
                    op = g.ops.pop()
                    for d in (g.dim, g.m, g.neq):
                        d.pop(op['o'], None)
                else:
                    op = g.query(o, q0 if rng.random() < (.75 if k == 0 else .3) else rng.choice([q for q in QRY if q != 'plot']))
                    g.ops.pop()
            op['t'] = t
            sc['ops'].append(op)
    sc['where'] = [[round(rng.random(), 5), round(rng.random(), 5), rng.randrange(nt), rng.choice([0, 1, 2, 2])] for _ in range(rng.choice([1, 1, 2, 2, 3, 4, 6]))]
    sc['first'] = rng.randrange(nt)
    if rng.random() < .2:
        sc['fault'] = {'exc': rng.choice(['backend', 'interrupt', 'memory']), 'f': round(rng.random(), 4)}
    return sc


def execute(sc, ctx):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        _execute(sc, ctx)


def jobs(sc, w, subs):
    """Per thread, a list of (label, thunk, finish)"""
    out = {}
    for i, op in enumerate(sc['ops']):
        t = op['t']
        if 's' in op:
            if op['s'] >= len(subs):
                continue
            pre = c11.prepare(subs[op['s']], sc['subs'][op['s']]['kind'], op['q'], op)
            if pre is None:
                continue
            x, thunk, judge, _ = pre
            out.setdefault(t, []).append((op['q'], (lambda thunk=thunk, x=x: thunk(None if x is None else x.copy())), judge, op))
        else:
            if w.ref.get(op['o']) is not None and w.ref[op['o']].eq_state == 'odd':
                continue
            pre = w.prepare(op)
            if pre is None:
                continue
            thunk, fin = pre
            if getattr(fin, 'expect', None):
                continue
            out.setdefault(t, []).append((op['op'], thunk, (lambda v, ctx, fin=fin: fin(v)), op))
    return [out[t] for t in sorted(out)]


def runner(jobs):
    def go():
        res = []
        for label, thunk, judge, op in jobs:
            try:
                res.append(('ok', thunk()))
            except SimStop:
                raise
            except BaseException as e:
                res.append(('exc', e))
        return res
    return go


WRITE = {'STORE_ATTR', 'STORE_SUBSCR', 'STORE_GLOBAL', 'DELETE_ATTR', 'DELETE_SUBSCR', 'STORE_SLICE'}
READ = {'LOAD_ATTR', 'BINARY_SUBSCR', 'LOAD_GLOBAL', 'CALL'}
_ops = {}


def heat(code, off):
    """2 just after a write to an object, 1 around any access, 0 elsewhere"""
    if code not in _ops:
        prev, H = None, {}
        for ins in dis.get_instructions(code):
            H[ins.offset] = 2 if prev in WRITE else 1 if ins.opname in READ | WRITE or prev in READ else 0
            if ins.opname != 'CACHE':
                prev = ins.opname
        _ops[code] = H
    return _ops[code].get(off, 0)


def resolve(sc, w, subs):
    """Where to preempt: from the instructions of a run of the same threads without preemption, on copies of the objects."""
    W = World(type(w.ctx)(), False)
    W.obj, W.ref, W.loose = copy.deepcopy(w.obj), dict(w.ref), set(w.loose)
    L = jobs(sc, W, copy.deepcopy(subs))
    if len(L) < 2:
        return []
    rec = []
    s = Sched([runner(j) for j in L], [], record=rec)
    np.random.seed(1)
    if s.run(sc['first']) is None or len(rec) == 0:
        return []
    total = SEAM.calls
    if sc.get('fault'):
        sc['fault']['k'] = 1 + int(sc['fault']['f'] * total)
    sites = {}
    for k, r in enumerate(rec):
        sites.setdefault(r, []).append(k + 1)
    keys = sorted(sites, key=lambda r: (r[0].co_filename, r[0].co_firstlineno, r[0].co_qualname, r[1]))
    by = {h: [r for r in keys if heat(*r) >= h] for h in (0, 1, 2)}
    out = []
    for a, b, t, h in sc['where']:
        K = by[h] or keys
        occ = sites[K[min(int(a * len(K)), len(K) - 1)]]
        out.append([occ[min(int(b * len(occ)), len(occ) - 1)], t])
    return sorted(out)


def _execute(sc, ctx):
    w = World(ctx)
    for i, op in enumerate(sc['setup']):
        w.run(op, i)
    subs = []
    for s in sc['subs']:
        run = lambda f: c11.call(f, 'building')[1]
        L = Linear(s['spec'], run) if s['kind'] == 'lin' else Hybrid(s['spec'], run)
        if s['kind'] == 'lin' and s.get('table') and L.nx <= 2 and L.N * L.nu <= 3:
            run(L.mpc.store_explicit_solution)       # the table is in force before the threads start
        subs.append(L)
    if 'switches' not in sc:
        sc['switches'] = resolve(sc, w, subs)
    L = jobs(sc, w, subs)
    if len(L) < 2:
        return
    np.random.seed(1)
    f = sc.get('fault')
    s = Sched([runner(j) for j in L], sc['switches'])
    res = s.run(sc['first'], {'k': f['k'], 'exc': f['exc']} if f and f.get('k') else None)
    if res is None:
        ctx.count('blocked')
        return
    fired = SEAM.fired
    for a in s.trace:
        ctx.mark(*a)
    for t in s.trace:
        ctx.log('switch', *t)
    if s.taken:
        ctx.nontrivial = True
        ctx.count('preemptions', s.taken)
    ctx.simtime += sum(len(j) for j in L)
    failures = 0
    for t, (j, r) in enumerate(zip(L, res)):
        if r[0] == 'exc':
            if isinstance(r[1], SimStop):
                raise Violation('no-progress', 'thread %d did not end within the step budget' % t)
            raise r[1]
        for (label, thunk, judge, op), (st, v) in zip(j, r[1]):
            ctx.log(t, label, st)
            if st == 'exc':
                if fired and failures == 0:
                    failures += 1
                    continue
                raise Violation('crash', '%s in thread %d raised %r' % (label, t, v))
            judged(label, judge, v, ctx, 'in thread %d' % t)
    # and the same questions again, one after the other: nothing was left behind
    for t, j in enumerate(jobs(sc, w, subs)):
        for label, thunk, judge, op in j:
            st, v = SEAM.run(thunk, rng=1, budget=20000000)
            if st == 'exc':
                raise Violation('crash', '%s raised %r when asked again' % (label, v))
            judged(label, judge, v, ctx, 'asked again')


def judged(label, judge, v, ctx, when):
    try:
        judge(v, ctx)
    except Violation as e:
        raise Violation(e.kind, '%s %s: %s' % (label, when, e.detail))
    except Exception as e:
        raise Violation('malformed', '%s %s answered %r: %r' % (label, when, v, e))
