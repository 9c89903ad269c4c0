"""C11: answers depend on the object's own definition and on the question, never on the history."""
import copy
import warnings
import numpy as np

from sim.core import Violation
from sim.hybrid import spec_pwa, Hybrid
from sim.plants import gen_linear, Linear, ref_dare, check_plan, ref_matrices
from sim.props.c08 import powers
from sim.seams import SEAM, SimStop, place_fault
from sim.world import rnd

ID = 'C11'
RUNS = {'quick': 3600, 'thorough': 20000}
TIME_UNIT = 'questions'
RULE = ('A run keeps several controllers and systems of the same sizes alive in one process and asks them a seeded interleaving of questions, '
        'with failing calls in between, objects discarded and rebuilt, and the caller reusing its measurement buffers; every answer is compared '
        'with the reference for that object alone, and with the earlier answer to the same question. Non-trivial: at least two objects were '
        'asked in turn and at least one question was repeated.')
REAL = ['LinearSystem, AffineSystem, PieceWiseAffineSystem, ModelPredictiveController, HybridModelPredictiveController, explicit solutions, mcais, DARE']
STUB = ['callers: simulator', 'references: matrix recursions, value iteration, gurobi / HiGHS on uncondensed problems']
ASSUMPTIONS = ['objects passed to a constructor are not modified by the caller afterwards (measurement buffers are)']

LIN = ['ff', 'ff', 'ff', 'fb', 'sim', 'simcl', 'condense', 'dare', 'dare', 'mcais', 'controllable', 'table', 'table', 'region', 'feasible', 'rebuild']
PWA = ['hff', 'hfb', 'hfb', 'hsim', 'hsim', 'hmode', 'hmode', 'hedge', 'hedge', 'hcondense', 'hseq', 'hseq', 'hposed', 'haff', 'hone', 'rebuild']

EXACT = ('hfb', 'ff', 'fb', 'table', 'sim', 'simcl', 'condense', 'dare', 'hseq', 'hsim', 'hmode', 'hedge', 'hcondense', 'haff', 'hone')


def generate(rng, tier):
    nx = rng.choice([1, 2, 2, 2, 3])
    nu = 1 if rng.random() < .7 else 2
    N = rng.choice([1, 2, 2, 3, 4])
    subs = []
    for _ in range(rng.choice([2, 2, 3])):
        sp = gen_linear(rng, nx=nx, nu=nu, N=N)
        if subs and rng.random() < .5:
            # a relative: same dynamics or same constraints
            o = subs[0]['spec']
            for k in rng.choice([['xlo', 'xhi', 'ulo', 'uhi', 'mixA', 'mixb'], ['Q', 'R'], ['mixA', 'mixb']]):
                sp[k] = copy.deepcopy(o[k])
        subs.append({'kind': 'lin', 'spec': sp})
    if rng.random() < .6:
        for _ in range(rng.choice([1, 2])):
            subs.append({'kind': 'pwa', 'spec': spec_pwa(rng, nx=nx, nm=2, N=rng.choice([1, 2, 3]))})
    ops, pool = [], []
    for _ in range(rng.randint(8, 22)):
        if pool and rng.random() < .3:
            ops.append(copy.deepcopy(rng.choice(pool)))        # the same question again
            continue
        s = rng.randrange(len(subs))
        same = rng.choice(pool) if pool and rng.random() < .4 else None     # the same kind of question with other values or to a sibling
        if same is not None and rng.random() < .6:
            s = same['s']
        L = LIN if subs[s]['kind'] == 'lin' else PWA
        op = {'s': s, 'q': rng.choice(L), 'z': [round(rng.gauss(0, 1), 3) for _ in range(nx)], 'r': rng.choice([.1, .4, .7, .9, .99, .999, 1.001, 1.3]),
              'u': [[rnd(rng, -1., 1.) for _ in range(max(nu, subs[s]['spec']['nu']))] for _ in range(rng.randint(1, 4))], 'n': rng.randint(1, 5),
              'w': [rng.randrange(2) for _ in range(rng.randint(1, 4))]}
        if same is not None and subs[s]['kind'] == subs[same['s']]['kind']:
            op['q'] = same['q']
            for k in rng.choice([[], ['z', 'r'], ['n'], ['n', 'z', 'r'], ['z', 'r', 'u'], ['w'], ['z', 'r', 'n', 'u', 'w']]):
                op[k] = copy.deepcopy(same[k])
            if rng.random() < .4:
                op['w'] = rng.choice([same['w'][::-1], [1 - m for m in same['w']]])
            if rng.random() < .4:
                # almost the same question
                op = copy.deepcopy(same)
                e = rng.choice([1e-6, 1e-5, 1e-4, 1e-3, 1e-2])
                op['eps'] = [round(e * rng.choice([-1., 1.]) * rng.uniform(.3, 1.), 9) for _ in range(nx)]
                if op['r'] > .98 and rng.random() < .7:
                    # from the other side of the border of the feasible states
                    op['r'], op['eps'] = rng.choice([.997, .9995, 1.0005, 1.003]), [0.] * nx
        pool.append(op)
        op = copy.deepcopy(op)
        if rng.random() < .22:
            op['fault'] = {'exc': rng.choice(['backend', 'interrupt', 'memory']), 'fs': round(rng.random(), 4), 'fo': round(rng.random(), 4)}
        ops.append(op)
    return {'subs': subs, 'ops': ops, 'buffer': rng.random() < .6}


def execute(sc, ctx):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        _execute(sc, ctx)


def call(f, what, fault=None, budget=20000000):
    st, v = SEAM.run(f, fault=fault, budget=budget, rng=1)
    if st == 'exc':
        if isinstance(v, SimStop):
            raise Violation('no-progress', '%s did not end within its step budget' % what)
        if SEAM.fired:
            return 'failed', None
        raise Violation('crash', '%s raised %r' % (what, v))
    return 'ok', v


def make(s):
    run = lambda f: call(f, 'building')[1]
    return Linear(s['spec'], run) if s['kind'] == 'lin' else Hybrid(s['spec'], run)


def _execute(sc, ctx):
    subs = [make(s) for s in sc['subs']]
    buf = {}
    asked, fresh = {}, {}
    last, turns, repeats = None, 0, 0
    for i, op in enumerate(sc['ops']):
        k = op['s']
        if k >= len(subs):
            continue
        L = subs[k]
        q = op['q']
        ctx.mark(k, q, bool(op.get('fault')))
        if q == 'rebuild':
            subs[k] = None
            L = None
            subs[k] = make(sc['subs'][k])
            ctx.count('fault/crash-rebuild')
            continue
        pre = prepare(L, sc['subs'][k]['kind'], q, op)
        if pre is None:
            continue
        x, thunk, judge, brief = pre
        if sc['buffer'] and x is not None:
            b = buf.setdefault(k, np.zeros(L.nx))
            b[:] = x                  # the caller reuses its measurement buffer
            x = b
        f = op.get('fault')
        fault = None
        if f:
            if 'k' not in f:
                tr = []
                dry = prepare(copy.deepcopy(L), sc['subs'][k]['kind'], q, op)[1]
                SEAM.run(lambda: dry(None if x is None else x.copy()), trace=tr, rng=1)
                f['k'] = place_fault(tr, f['fs'], f['fo']) or 0
            if f['k']:
                fault = {'k': f['k'], 'exc': f['exc']}
        keep = None if x is None else x.copy()
        st, v = call(lambda: thunk(x), q, fault)
        ctx.simtime += 1
        if st == 'failed':
            ctx.log(i, k, q, 'failed')
            # asked again at once, without the fault
            st, v = call(lambda: thunk(x), q)
        ctx.log(i, k, q, 'ok')
        if x is not None and not np.array_equal(x, keep):
            raise Violation('altered', '%s changed the measurement' % q)
        try:
            judge(v, ctx)
            b = None if brief is None else brief(v)
        except Violation:
            raise
        except Exception as e:
            raise Violation('malformed', '%s answered %r: %r' % (q, v, e))
        ctx.count('checked/' + q)
        if q in EXACT and (op.get('eps') or i % 3 == 0 or q == 'hedge'):
            # the same question to an object of the same definition that has never been asked anything
            if k not in fresh:
                fresh[k] = make(sc['subs'][k])
            tw = prepare(copy.deepcopy(fresh[k]), sc['subs'][k]['kind'], q, op)
            st, a = call(lambda: tw[1](None if x is None else keep.copy()), q)
            ctx.count('compared-with-fresh')
            try:
                a = tw[3](a)
            except Exception as e:
                raise Violation('malformed', '%s of a fresh object answered %r: %r' % (q, a, e))
            if np.shape(a) != np.shape(b) or np.size(a) and np.max(np.abs(a - b)) > (1e-4 if q == 'hfb' else 1e-7) * (1 + np.max(np.abs(a))):
                raise Violation('changed-answer', 'the answer to %s at %s is %s, a fresh object answers %s' % (q, keep, b, a))
        if b is not None:
            key = (k, q, tuple(op['z']), str(op.get('eps')), op['r'], op['n'], str(op['u']), str(op['w']))
            if key in asked:
                repeats += 1
                ctx.count('repeated')
                a = asked[key]
                if np.shape(a) != np.shape(b) or np.size(a) and np.max(np.abs(a - b)) > (1e-4 if q == 'hfb' else 1e-6) * (1 + np.max(np.abs(a))):
                    raise Violation('changed-answer', 'the answer to %s was %s, is now %s' % (q, a, b))
            else:
                asked[key] = b
        turns += last is not None and last != k
        last = k
    if turns >= 1 and repeats >= 1:
        ctx.nontrivial = True


def state(L, op):
    d = np.array(op['z'], float)[:L.nx]
    if np.linalg.norm(d) < 1e-3:
        return None
    s = L.reach(d)
    return None if s is None or s < 1e-3 else op['r'] * s * d + eps(L, op)


def eps(L, op):
    return np.array(op.get('eps') or [0.] * L.nx, float)[:L.nx]


def cat(v):
    if v is None:
        return np.zeros(0)
    return np.concatenate([np.ravel(np.asarray(a, float)) for a in v])


def facets(A, b):
    """(row, middle) of the facets of a planar or scalar polyhedron, where they are bounded and not too short"""
    out = []
    for i in range(len(b)):
        n = A[i].dot(A[i])
        if n < 1e-6:
            continue
        p = A[i] * b[i] / n
        if A.shape[1] == 1:
            if np.max(A.dot(p) - b) < 1e-9:
                out.append((i, p))
            continue
        d = np.array([-A[i][1], A[i][0]]) / n ** .5
        lo, hi = -np.inf, np.inf
        for k in range(len(b)):
            g, h = A[k].dot(d), b[k] - A[k].dot(p)
            if k == i:
                continue
            if abs(g) < 1e-7:
                lo = np.inf if h < 1e-4 else lo
            elif g > 0:
                hi = min(hi, h / g)
            else:
                lo = max(lo, h / g)
        if np.isfinite(lo) and np.isfinite(hi) and hi - lo > 1e-2:
            out.append((i, p + .5 * (lo + hi) * d))
    return out


def prepare(L, kind, q, op):
    """(state or None, thunk(state), judge(value, ctx), brief(value) or None)"""
    nx, nu = L.nx, L.nu
    z = np.array(op['z'], float)[:nx] + eps(L, op)
    us = [np.array(v, float)[:nu] for v in op['u']]
    if kind == 'lin':
        if q in ('ff', 'fb', 'table'):
            x = state(L, op)
            if x is None:
                return None
            m = L.margin(x)
            if m is None or abs(m) < 1e-6:
                return None

            def plan(u, V, ctx):
                if (u is None) != (V is None) or (u is None) != (m < 0):
                    raise Violation('wrong-answer', 'at %s (margin %s) the controller answers u = %s, V = %s' % (x, m, u, V))
                if u is not None:
                    check_plan(L, x, list(u), float(V), ctx)
        if q == 'ff':
            return x, (lambda x: L.mpc.feedforward(x)), (lambda v, ctx: plan(v[0], v[1], ctx)), (lambda v: cat(v[0]))
        if q == 'fb':
            def j(v, ctx):
                if (v is None) != (m < 0):
                    raise Violation('wrong-answer', 'at %s (margin %s) the feedback is %s' % (x, m, v))
                if v is not None:
                    r = L.optimum(x)
                    if r[0] == 'opt' and (np.shape(v) != (nu,) or np.max(np.abs(np.asarray(v, float) - r[2][0])) > 3e-3 * (1 + np.max(np.abs(x)))):
                        raise Violation('wrong-answer', 'at %s the feedback is %s, should be %s' % (x, v, r[2][0]))
            return x, (lambda x: L.mpc.feedback(x)), j, (lambda v: cat(None if v is None else [v]))
        if q == 'table':
            if nx > 2 or L.N * nu > 3:
                return None

            def go(x):
                if L.mpc.explicit_solution is None:
                    L.mpc.store_explicit_solution()
                return L.mpc.feedforward_explicit(x)

            def j(v, ctx):
                if v[0] is None and m > 0:
                    return          # holes are C09's business
                plan(v[0], v[1], ctx)
            return x, go, j, (lambda v: cat(v[0]))
        if q == 'region':
            # the center of a facet of a critical region
            T = L.mpc.explicit_solution
            if nx > 2 or T is None or not len(T.critical_regions):
                return None
            cr = T.critical_regions[int(abs(op['z'][0]) * 997) % len(T.critical_regions)]
            A, b = np.array(cr.polyhedron.A, float), np.array(cr.polyhedron.b, float)
            rows = facets(A, b)
            if not rows:
                return None
            i, mid = rows[op['n'] % len(rows)]

            def j(v, ctx):
                v = np.ravel(np.asarray(v, float))
                if v.shape != (nx,) or np.max(np.abs(v - mid)) > 1e-5 * (1 + np.max(np.abs(mid))):
                    raise Violation('wrong-answer', 'the center of facet %d of a region is %s, should be %s' % (i, v, mid))
            return None, (lambda x: cr.facet_center(i)), j, (lambda v: cat([v]))
        if q == 'sim':
            def j(v, ctx):
                y = z
                if len(v) != len(us) + 1:
                    raise Violation('wrong-answer', 'simulate returned %d states for %d inputs' % (len(v), len(us)))
                for t in range(len(v)):
                    if np.max(np.abs(np.asarray(v[t], float) - y)) > 1e-7 * (1 + np.max(np.abs(y))):
                        raise Violation('wrong-answer', 'simulate: state %d is %s, should be %s' % (t, v[t], y))
                    y = L.step(y, us[t]) if t < len(us) else y
            return z, (lambda x: L.S.simulate(x, us)), j, cat
        if q == 'simcl':
            _, K = ref_dare(L.A, L.B, L.Q, L.R)

            def j(v, ctx):
                y = z
                if len(v) != op['n'] + 1:
                    raise Violation('wrong-answer', 'closed-loop simulation of %d steps returned %d states' % (op['n'], len(v)))
                for t in range(len(v)):
                    if np.max(np.abs(np.asarray(v[t], float) - y)) > 1e-6 * (1 + np.max(np.abs(y))):
                        raise Violation('wrong-answer', 'closed loop: state %d is %s, should be %s' % (t, v[t], y))
                    y = (L.A + L.B.dot(K)).dot(y)
            return z, (lambda x: L.S.simulate_closed_loop(x, op['n'], K)), j, cat
        if q == 'condense':
            n = op['n']

            def j(v, ctx):
                u = [us[t % len(us)] * (1 + .1 * t) for t in range(n)]
                y, want = z, [z]
                for t in range(n):
                    y = L.step(y, u[t])
                    want.append(y)
                got = np.asarray(v[0]).dot(z) + np.asarray(v[1]).dot(np.concatenate(u))
                if got.shape != (nx * (n + 1),) or np.max(np.abs(got - np.concatenate(want))) > 1e-7 * (1 + np.max(np.abs(want))):
                    raise Violation('wrong-answer', 'the condensed prediction over %d steps is %s, should be %s' % (n, got, want))
            return None, (lambda x: L.S.condense(n)), j, cat
        if q == 'dare':
            Q = L.Q * (1., 1., 3., .4, 8.)[op['n'] - 1]
            P, K = ref_dare(L.A, L.B, Q, L.R)
            if P is None or np.max(np.abs(P)) > 1000.:
                return None

            def j(v, ctx):
                for name, a, b in (('P', v[0], P), ('K', v[1], K)):
                    if np.shape(a) != b.shape or np.max(np.abs(np.asarray(a) - b)) > 1e-6 * (1 + np.max(np.abs(b))):
                        raise Violation('wrong-answer', 'Riccati %s is %s, should be %s' % (name, a, b))
            return None, (lambda x: L.S2.solve_dare(Q, L.R)), j, cat
        if q == 'controllable':
            return None, (lambda x: L.S2.controllable), (lambda v, ctx: ctx.count('x') if v else bad('controllable is %s' % v)), None
        if q == 'mcais':
            _, K = ref_dare(L.A, L.B, L.Q, L.R)
            E, e = L.F[:, :nx] + L.F[:, nx:].dot(K), L.h
            if np.min(e / np.maximum(np.linalg.norm(E, axis=1), 1e-9)) < .02 or np.linalg.norm(z) < 1e-3:
                return None

            def j(v, ctx):
                d = z / np.linalg.norm(z)
                G = powers(L.A + L.B.dot(K), E, e).dot(d)
                with np.errstate(divide='ignore', invalid='ignore'):
                    s = float(np.min(np.where(G > 1e-12, e[None, :] / G, np.inf)))
                a = np.asarray(v.A).dot(d)
                so = np.min(np.asarray(v.b)[a > 1e-12] / a[a > 1e-12]) if np.any(a > 1e-12) else np.inf
                if abs(s - so) > 1e-5 * (1 + s):
                    raise Violation('wrong-answer', 'along %s the invariant set ends at %s, should be %s' % (d, so, s))
            return None, (lambda x: L.S.mcais(K, L.D)), j, None
        if q == 'feasible':
            if nx > 2 or L.N * nu > 2:
                return None

            def j(v, ctx):
                for d in (z, -z, np.roll(z, 1)):
                    if np.linalg.norm(d) < 1e-2:
                        continue
                    s = L.reach(d)
                    a = np.asarray(v.A, float).dot(d)
                    t = np.min(np.asarray(v.b, float)[a > 1e-9] / a[a > 1e-9]) if np.any(a > 1e-9) else np.inf
                    if s is not None and abs(s - t) > 1e-4 * (1 + s):
                        raise Violation('wrong-answer', 'along %s the feasible states end at %s, the returned set at %s' % (d, s, t))
            return None, (lambda x: L.mpc.mpqp.get_feasible_set()), j, None
        return None
    # piecewise affine
    sp = L.sp
    lo, hi, ul, uh = np.array(sp['xlo']), np.array(sp['xhi']), np.array(sp['ulo']), np.array(sp['uhi'])
    x = (lo + hi) / 2 + np.tanh(z) * (hi - lo) / 2
    us = [ul + (v + 1) / 2 * (uh - ul) for v in us]
    seq = [m % L.nm for m in op['w']]
    if q in ('hff', 'hfb', 'hseq'):
        if not L.usable():
            return None
    if q == 'hff':
        from sim.props.c10 import judge
        return x, (lambda x: L.mpc.feedforward(x)), (lambda v, ctx: judge(L, L, x, v, False, ctx)), (lambda v: np.zeros(0) if v[0] is None else np.zeros(1))
    if q == 'hfb':
        runs = sorted((r[1], seq, r[2]) for seq, (r, m) in ((seq, L.by_sequence(seq, x)) for seq in L.sequences()) if r[0] == 'opt')
        V, margin, sure = L.best(x)
        if not sure or abs(margin) < 1e-3 or len(runs) > 1 and runs[1][0] - runs[0][0] < 3e-3 * (1 + abs(runs[0][0])):
            return None             # two sequences cost the same: the input is not determined

        def j(v, ctx):
            if (v is None) != (margin < 0):
                raise Violation('wrong-answer', 'at %s (margin %s) the feedback is %s' % (x, margin, v))
            if v is not None and (np.shape(v) != (nu,) or np.max(np.abs(np.asarray(v, float) - runs[0][2][0])) > 5e-3 * (1 + np.max(np.abs(x)))):
                raise Violation('wrong-answer', 'at %s the feedback is %s, should be %s' % (x, v, runs[0][2][0]))
        return x, (lambda x: L.mpc.feedback(x)), j, (lambda v: cat(None if v is None else [v]))
    if q == 'hmode':
        m = L.mode(x, us[0])
        if m == '?':
            return None

        def j(v, ctx):
            if v != m:
                raise Violation('wrong-answer', 'the mode of %s, %s is %s, should be %s' % (x, us[0], v, m))
        return x, (lambda x: L.S.get_mode(x, us[0])), j, (lambda v: np.array([-1 if v is None else int(v)]))
    if q == 'hedge':
        # on the border between two modes either may be reported, but always the same one
        a = np.array(sp['a'], float)
        w = np.concatenate((x, us[0]))
        w = w + (sp['cuts'][op['w'][0] % len(sp['cuts'])] - a.dot(w)) * a / a.dot(a)
        return w[:nx], (lambda x: L.S.get_mode(x, w[nx:])), (lambda v, ctx: None), (lambda v: np.array([-1 if v is None else int(v)]))
    if q == 'hsim':
        from sim.props.c10 import ask_plant
        y, ok = x.copy(), True
        for v in us:
            m = L.mode(y, v)
            if m == '?' or m is None:
                ok = False
                break
            y = L.step(y, v, m)
        if not ok:
            return None

        def j(v, ctx):
            if np.max(np.abs(np.asarray(v[0][-1], float) - y)) > 1e-7 * (1 + np.max(np.abs(y))):
                raise Violation('wrong-answer', 'the simulation ends in %s, should end in %s' % (v[0][-1], y))
        return x, (lambda x: L.S.simulate(x, us)), j, (lambda v: cat(v[0]))
    if q == 'hcondense':
        def j(v, ctx):
            y, want = x.copy(), [x.copy()]
            u = [us[t % len(us)] for t in range(len(seq))]
            for t, m in enumerate(seq):
                y = L.step(y, u[t], m)
                want.append(y)
            got = np.asarray(v[0]).dot(x) + np.asarray(v[1]).dot(np.concatenate(u)) + np.asarray(v[2])
            if got.shape != (nx * (len(seq) + 1),) or np.max(np.abs(got - np.concatenate(want))) > 1e-7 * (1 + np.max(np.abs(want))):
                raise Violation('wrong-answer', 'the condensed prediction for the modes %s is %s, should be %s' % (seq, got, want))
        return None, (lambda x: L.S.condense(seq)), j, cat
    if q == 'hseq':
        s = [m % L.nm for m in (op['w'] * 4)[:L.N]]
        r, m = L.by_sequence(s, x)
        if r[0] == '?' or abs(m) < 1e-5:
            return None

        def j(v, ctx):
            if (v['min'] is None) != (m < 0) or v['min'] is not None and r[0] == 'opt' and abs(v['min'] - r[1]) > 1e-4 * (1 + abs(r[1])):
                raise Violation('wrong-answer', 'for the modes %s at %s the optimum is %s, should be %s' % (s, x, v['min'], r[1:2]))
        return x, (lambda x: L.mpc.get_mpqp(s).solve(x)), j, (lambda v: cat(None if v['argmin'] is None else [v['argmin']]))
    if q in ('haff', 'hone'):
        k = op['w'][0] % L.nm
        A, B, c = L.mats[k]
        n = op['n']
        y, want = z, [z]
        for t in range(n):
            y = A.dot(y) + B.dot(us[t % len(us)]) + c
            want.append(y)
        want = np.concatenate(want)

        def j(v, ctx):
            got = cat(v) if q == 'hone' else np.asarray(v[0]).dot(z) + np.asarray(v[1]).dot(np.concatenate([us[t % len(us)] for t in range(n)])) + np.asarray(v[2])
            if got.shape != want.shape or np.max(np.abs(got - want)) > 1e-7 * (1 + np.max(np.abs(want))):
                raise Violation('wrong-answer', 'the affine system of mode %d goes through %s, should be %s' % (k, got, want))
        if q == 'hone':
            return z, (lambda x: L.S.affine_systems[k].simulate(x, [us[t % len(us)] for t in range(n)])), j, cat
        if L.sp['linear0'] and not np.any(c):
            return None
        return None, (lambda x: L.S.affine_systems[k].condense(n)), j, cat
    if q == 'hposed':
        return None, (lambda x: L.S.is_well_posed()), (lambda v, ctx: None if v else bad('domains that share only a border are not well posed')), None
    return None


def bad(s):
    raise Violation('wrong-answer', s)
