"""C10: every plan of the hybrid controller is true: it replays on the plant, costs what it says, and is the best."""
import copy
import warnings
import numpy as np

from sim.core import Violation
from sim.hybrid import spec_pwa, Hybrid, out_of
from sim.seams import SEAM, SimStop, place_fault

ID = 'C10'
RUNS = {'quick': 2400, 'thorough': 15000}
TIME_UNIT = 'sampling periods'
RULE = ('A run closes the loop between a random piecewise-affine plant and its hybrid controller: measurements are lost (the actuator plays the '
        'older plan), the solver fails or is stopped by its own limits, the controller crashes and is rebuilt, the state is kicked; '
        'every plan is replayed on the plant and compared with the best over all mode sequences. Non-trivial: a plan was '
        'played open loop for at least one step and a fault was injected.')
REAL = ['HybridModelPredictiveController, PieceWiseAffineSystem, mpMIQP, get_mpqp, gurobi MIQP wrapper, gurobi', 'big-M LPs on pnnls, Polyhedron']
STUB = ['plant and network: simulator', 'reference: enumeration of the mode sequences, uncondensed QPs']
ASSUMPTIONS = ['bounded full-dimensional domains that share at most borders', 'the solver\'s optimality gap (1e-4) and feasibility tolerance (1e-6, times the big-M) are respected, not beaten']

LIMITS = [{'NodeLimit': 0}, {'IterationLimit': 0}, {'TimeLimit': 0.}, {'SolutionLimit': 1}, {'Cutoff': -1e6}]
KNOBS = [{'Presolve': 0}, {'Heuristics': 0.}, {'Cuts': 0}, {'MIPFocus': 1}, {'MIPFocus': 3}, {'Seed': 11}]


def generate(rng, tier):
    sp = spec_pwa(rng, tier, eq=.25)
    T = rng.randint(4, 8 if tier == 'quick' else 16)
    ev = []

    def flt(call=False):
        f = {'exc': rng.choice(['backend', 'interrupt', 'memory']), 'fs': round(rng.random(), 4), 'fo': round(rng.random(), 4)}
        if call:
            f['call'] = rng.randint(0, 2)
        return f
    for t in range(T):
        u = rng.random()
        if u < .25:
            ev.append({'t': t, 'k': 'lost'})
        elif u < .35:
            ev.append({'t': t, 'k': 'solver', 'fault': flt()})
        elif u < .47:
            ev.append({'t': t, 'k': 'limit', 'params': rng.choice(LIMITS)})
        elif u < .57:
            ev.append({'t': t, 'k': 'knob', 'params': rng.choice(KNOBS)})
        if rng.random() < .05:
            ev.append({'t': t, 'k': 'crash', 'fault': flt(True) if rng.random() < .6 else None})
        if rng.random() < .2 or t == 0:
            ev.append({'t': t, 'k': 'kick', 'x': [round(rng.random(), 3) for _ in range(sp['nx'])], 's': rng.choice([1., 1., 1., 1.1, 0.])})
        if rng.random() < .2:
            ev.append({'t': t, 'k': 'ask-sequence', 'seq': [rng.randrange(sp['nm']) for _ in range(sp['N'])]})
        if rng.random() < .25:
            ev.append({'t': t, 'k': 'ask-plant', 'u': [[round(rng.random(), 3) for _ in range(sp['nu'])] for _ in range(rng.randint(1, 4))]})
    return {'plant': sp, 'steps': T, 'events': ev}


def execute(sc, ctx):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        _execute(sc, ctx)


def lib(f, what, fault=None, limit=None, budget=4000000):
    """('ok', value) or ('failed', None) if an injected fault made it fail."""
    st, v = SEAM.run(f, fault=fault, limit=limit, budget=budget, rng=1)
    if st == 'ok':
        return 'ok', v
    if isinstance(v, SimStop):
        raise Violation('no-progress', '%s did not end within its step budget' % what)
    if SEAM.fired and SEAM.fired['kind'] != 'limit':
        return 'failed', None
    if limit is not None:
        return 'failed', None
    raise Violation('crash', '%s raised %r' % (what, v))


class Failed(Exception):
    pass


def build(sc, fault=None):
    n = [0]

    def run(f):
        k = n[0]
        n[0] += 1
        F = None
        if fault and fault.get('call') == k:
            if 'k' not in fault:
                tr = []
                SEAM.run(f, trace=tr, rng=1, budget=4000000)
                fault['k'] = place_fault(tr, fault['fs'], fault['fo']) or 0
            if fault['k']:
                F = {'k': fault['k'], 'exc': fault['exc']}
        st, v = lib(f, 'building the controller', F)
        if st == 'failed':
            raise Failed()
        return v
    return Hybrid(sc['plant'], run)


def _execute(sc, ctx):
    H = build(sc)
    if not H.usable():
        ctx.count('degenerate-plant')
        return
    ref = H
    sp = sc['plant']
    lo, hi = np.array(sp['xlo']), np.array(sp['xhi'])
    ctx.mark(H.nx, H.nu, H.nm, H.N)
    byt = {}
    for e in sc['events']:
        byt.setdefault(e['t'], []).append(e)
    x, plan, stamp = None, None, None
    faulted = opened = False
    given = []
    for t in range(sc['steps']):
        E = byt.get(t, [])
        lost = False
        fault = limit = None
        lim = None
        for e in E:
            ctx.mark(t, e['k'])
            if e['k'] == 'kick':
                x = (lo + np.array(e['x']) * (hi - lo)) * e['s']
                plan = stamp = None
                ctx.count('fault/kick')
                ctx.log(t, 'kick', x)
            elif e['k'] == 'lost':
                lost = True
                ctx.count('fault/lost-measurement')
            elif e['k'] == 'crash':
                ctx.count('fault/crash')
                faulted = True
                try:
                    H = build(sc, e.get('fault'))
                except Failed:
                    H = build(sc)
            elif e['k'] == 'solver':
                fault = e['fault']
            elif e['k'] in ('limit', 'knob'):
                limit = {'k': 1, 'params': e['params']}
                lim = e['k']
        if x is None:
            continue
        for e in E:
            if e['k'] == 'ask-sequence':
                ask_sequence(H, ref, x, e['seq'], ctx)
            elif e['k'] == 'ask-plant':
                ask_plant(H, ref, x, e['u'], ctx)
        if not lost:
            F = None
            if fault:
                if 'k' not in fault:
                    tr = []
                    SEAM.run(lambda: H.mpc.feedforward(x), trace=tr, rng=1)
                    fault['k'] = place_fault(tr, fault['fs'], fault['fo']) or 0
                F = {'k': fault['k'], 'exc': fault['exc']} if fault['k'] else None
            keep = x.copy()
            st, v = lib(lambda: H.mpc.feedforward(x), 'feedforward', F, limit)
            hit = SEAM.fired
            if hit:
                faulted = True
                ctx.mark(hit.get('site'), hit['kind'])
            if lim == 'knob':
                ctx.count('fault/knob')
            if not np.array_equal(keep, x):
                raise Violation('altered', 'the controller changed the measurement')
            ctx.log(t, 'feedforward', st, v is not None and v[0] is not None)
            if st == 'ok':
                new = judge(ref, H, x, v, lim == 'limit' and bool(hit), ctx)
                if new is not None:
                    plan, stamp = new, t
                    given.append((v, copy.deepcopy(v)))
                    if not hit:
                        st2, fb = lib(lambda: H.mpc.feedback(x), 'feedback', None, limit)
                        if st2 == 'ok' and (fb is None) and lim != 'limit' or fb is not None and np.shape(fb) != (H.nu,):
                            raise Violation('feedback', 'feedback is %r where a plan exists' % (fb,))
                        if fb is not None and lim is None and np.max(np.abs(np.asarray(fb) - v[0][0])) > 1e-5:
                            raise Violation('feedback', 'feedback is %s, the plan starts with %s' % (fb, v[0][0]))
                elif not hit:
                    st2, fb = lib(lambda: H.mpc.feedback(x), 'feedback', None, limit)
                    if st2 == 'ok' and fb is not None and lim is None:
                        raise Violation('feedback', 'feedback is %r where there is no plan' % (fb,))
                    ctx.count('checked/no-feedback')
        if plan is None or t - stamp >= H.N:
            plan = None
            ctx.simtime += 1
            continue
        u, xs, ms = plan
        k = t - stamp
        if k:
            opened = True
            ctx.count('open-loop-step')
        m = ms[k]
        if np.max(np.abs(x - xs[k])) > 2e-4 * (1 + np.max(np.abs(x))) * 3 ** k:
            raise Violation('drift', 'step %d of the plan: the plant is at %s, the plan says %s' % (k, x, xs[k]))
        x = ref.step(x, np.asarray(u[k], float), m)
        ctx.simtime += 1
        ctx.log(t, 'x', np.round(x, 3) + 0.)
        for live, snap in given:
            for a, b in zip(live, snap):
                if isinstance(a, list) and any(not np.array_equal(p, q) for p, q in zip(a, b)):
                    raise Violation('altered', 'a plan handed out earlier changed')
    if opened and faulted:
        ctx.nontrivial = True


def judge(ref, H, x, v, limited, ctx):
    try:
        u, xs, ms, V = v
        if u is None:
            if (xs, ms, V) != (None, None, None):
                raise ValueError('inputs are missing, something else is not')
        else:
            u, xs, ms, V = [np.asarray(a, float) for a in u], [np.asarray(a, float) for a in xs], [int(m) for m in ms], float(V)
            if len(u) != ref.N or len(xs) != ref.N + 1 or len(ms) != ref.N or any(a.shape != (ref.nu,) for a in u) or any(a.shape != (ref.nx,) for a in xs):
                raise ValueError('wrong sizes')
    except Exception as e:
        raise Violation('malformed', 'feedforward answered %r: %r' % (v, e))
    best, margin, sure = ref.best(x)
    if u is None:
        if not limited and margin > 1e-4:
            raise Violation('false-infeasible', 'no plan at %s, feasible with margin %s' % (x, margin))
        ctx.count('no-plan' + ('-limited' if limited else ''))
        return None
    if sure and margin < -1e-3:
        raise Violation('false-feasible', 'a plan at %s, infeasible by %s' % (x, margin))
    sc = 1. + float(np.max(np.abs(x)))
    if np.max(np.abs(xs[0] - x)) > 1e-7:
        raise Violation('plan', 'the plan starts at %s, the state is %s' % (xs[0], x))
    y, cost = x.copy(), 0.
    for t in range(ref.N):
        if not 0 <= ms[t] < ref.nm:
            raise Violation('plan', 'mode %d does not exist' % ms[t])
        g = ref.outside(y, u[t], ms[t])
        if g > 3e-4 * sc * 3 ** t:
            raise Violation('plan-infeasible', 'step %d of the plan from %s: (x, u) is outside the domain of mode %d by %s' % (t, x, ms[t], g))
        cost += ref.stage(y, u[t])
        z = ref.step(y, u[t], ms[t])
        if np.max(np.abs(z - xs[t + 1])) > 3e-4 * sc * 3 ** t:
            raise Violation('plan-states', 'step %d of the plan from %s: mode %d leads to %s, the plan says %s' % (t, x, ms[t], z, xs[t + 1]))
        y = z
    g = out_of(ref.XN, y)
    if g > 1e-3 * sc * 3 ** ref.N:
        raise Violation('plan-infeasible', 'the plan from %s misses the terminal set by %s' % (x, g))
    cost += .5 * y.dot(ref.P).dot(y)
    if abs(cost - V) > 2e-3 * (1 + abs(cost)):
        raise Violation('plan-cost', 'the plan from %s costs %s, the controller says %s' % (x, cost, V))
    if sure and best is not None:
        if V > best + 1e-3 * (1 + abs(best)):
            raise Violation('plan-suboptimal', 'the plan from %s costs %s, the best mode sequence %s' % (x, V, best))
        if V < best - 2e-3 * (1 + abs(best)) and V < ref.least(x) - 2e-3 * (1 + abs(best)):
            raise Violation('plan-cost', 'the plan from %s costs %s, less than the best possible %s' % (x, V, best))
        ctx.count('checked/optimal-plan')
    return u, xs, ms


def ask_sequence(H, ref, x, seq, ctx):
    """The program for a fixed mode sequence."""
    st, q = lib(lambda: H.mpc.get_mpqp(list(seq)), 'get_mpqp')
    st, s = lib(lambda: q.solve(x), 'mpQP solve')
    r, m = ref.by_sequence(seq, x)
    if r[0] == '?' or abs(m) < 1e-5:
        return
    if (s['min'] is None) != (m < 0):
        raise Violation('sequence', 'for the modes %s at %s (margin %s) the optimum is %s' % (seq, x, m, s['min']))
    if s['min'] is not None and r[0] == 'opt':
        if abs(s['min'] - r[1]) > 1e-4 * (1 + abs(r[1])):
            raise Violation('sequence', 'for the modes %s at %s the optimum is %s, should be %s' % (seq, x, s['min'], r[1]))
        if np.max(np.abs(np.asarray(s['argmin'], float) - np.concatenate(r[2]))) > 3e-3 * (1 + np.max(np.abs(x))):
            raise Violation('sequence', 'for the modes %s at %s the inputs are %s, should be %s' % (seq, x, s['argmin'], r[2]))
    ctx.count('checked/sequence')


def ask_plant(H, ref, x, us, ctx):
    """The library's own plant, driven with arbitrary inputs."""
    sp = ref.sp
    lo, hi = np.array(sp['ulo']), np.array(sp['uhi'])
    u = [lo + np.array(v) * (hi - lo) for v in us]
    y, modes, xs, out = x.copy(), [], [x.copy()], None
    for t, v in enumerate(u):
        m = ref.mode(y, v)
        if m == '?':
            return
        if m is None:
            out = t
            break
        modes.append(m)
        y = ref.step(y, v, m)
        xs.append(y)
    st, v = SEAM.run(lambda: H.S.simulate(x, u), rng=1)
    if out is not None:
        if st == 'ok':
            raise Violation('plant', 'the simulation went through %s, outside every domain at step %d' % (xs[-1], out))
        if not isinstance(v, ValueError):
            raise Violation('crash', 'simulate raised %r' % v)
        return
    if st == 'exc':
        raise Violation('crash', 'simulate raised %r' % v)
    X, M = v
    if [int(m) for m in M] != modes or len(X) != len(xs) or max(np.max(np.abs(np.asarray(a) - b)) for a, b in zip(X, xs)) > 1e-7 * (1 + np.max(np.abs(xs))):
        raise Violation('plant', 'from %s the simulation visits %s, should be %s' % (x, M, modes))
    ctx.count('checked/plant')
