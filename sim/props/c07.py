"""C07: the MPC guarantee - safety, recursive feasibility, cost decrease - over a lossy network."""
import heapq
import numpy as np
import warnings

from sim.core import Violation
from sim.plants import gen_linear, Linear, check_plan
from sim.seams import SEAM, SimStop, Injected, place_fault

ID = 'C07'
RUNS = {'quick': 6000, 'thorough': 30000}
TIME_UNIT = 'sampling periods'
RULE = ('A run is a seeded discrete-event simulation of plant, sensor, controller and actuator joined by two lossy channels '
        '(drop, duplicate, delay, partition), with controller crashes and restarts, solver faults, and state kicks, on a random '
        'linear plant. Non-trivial: at least one plan was lost, late or not computed, and the loop went on with an older plan or the '
        'terminal law.')
REAL = ['ModelPredictiveController, condensing, mpQP, pnnls QP', 'LinearSystem (DARE, mcais, discretisation)', 'Polyhedron']
STUB = ['plant integration and network: simulator; actuator (plays the plan it holds, then u = K x): simulator',
        'reference optimum: gurobi matrix interface on the uncondensed problem']
ASSUMPTIONS = ['nominal plant (no model error) between kicks', 'plans older than the current sampling period are not adopted by the actuator',
               'states whose feasibility margin is below 1e-6 are not required to be solved']


def generate(rng, tier):
    sp = gen_linear(rng, term=.3, wide=True)
    T = rng.randint(10, 22 if tier == 'quick' else 50)
    ev = []
    lossy = rng.random() < .8
    drop = rng.choice([0., .15, .4, .7]) if lossy else 0.
    for t in range(T):
        if rng.random() < drop:
            ev.append({'t': t, 'k': rng.choice(['drop-up', 'drop-down'])})
        if lossy and rng.random() < .12:
            ev.append({'t': t, 'k': 'dup-up', 'by': rng.randint(0, 2)})
        if lossy and rng.random() < .1:
            ev.append({'t': t, 'k': 'dup-down', 'by': rng.randint(0, 3)})
        if lossy and rng.random() < .1:
            ev.append({'t': t, 'k': rng.choice(['late-up', 'late-down']), 'by': rng.randint(1, 4)})
        if rng.random() < .12:
            ev.append({'t': t, 'k': 'solver', 'fault': {'exc': rng.choice(['backend', 'memory', 'interrupt']), 'fs': round(rng.random(), 4), 'fo': round(rng.random(), 4)}})
        if rng.random() < .05:
            e = {'t': t, 'k': 'crash'}
            if rng.random() < .5:
                e['fault'] = {'exc': rng.choice(['backend', 'memory', 'interrupt']), 'fs': round(rng.random(), 4), 'fo': round(rng.random(), 4), 'call': rng.randint(0, 4)}
            ev.append(e)
        if rng.random() < .07:
            ev.append({'t': t, 'k': 'kick', 'd': [round(rng.gauss(0, 1), 3) for _ in range(sp['nx'])], 's': rng.choice([.3, .6, .9, .98, 1.2, 2.])})
        if rng.random() < .03:
            # back and forth across the border of the feasible states
            d, a = [round(rng.gauss(0, 1), 3) for _ in range(sp['nx'])], rng.choice([.0005, .002, .005])
            for i in range(rng.choice([2, 2, 3])):
                ev.append({'t': t + i, 'k': 'kick', 'd': d, 's': 1. + (a if i % 2 else -a)})
        if rng.random() < .04:
            ev.append({'t': t, 'k': 'partition', 'for': rng.randint(2, 8)})
    return {'plant': sp, 'steps': T, 'x0': {'d': [round(rng.gauss(0, 1), 3) for _ in range(sp['nx'])], 's': rng.choice([.5, .8, .95, .99])},
            'events': ev, 'ask': rng.choice(['feedforward', 'feedforward', 'both'])}


class Loop(object):

    def __init__(self, sc, ctx):
        self.sc, self.ctx = sc, ctx
        self.n = 0

    def lib(self, f, fault=None, budget=3000000):
        """One library call inside the seam; raises the exception it raised."""
        self.n += 1
        st, v = SEAM.run(f, fault=fault, budget=budget, rng=self.n)
        if st == 'ok':
            return v
        if isinstance(v, SimStop):
            raise Violation('no-progress', 'a call did not end within its step budget')
        raise v

    def build(self, fault=None):
        calls = [0]

        def run(f):
            k = calls[0]
            calls[0] += 1
            if fault and k == fault.get('call'):
                if 'k' not in fault:
                    tr = []
                    SEAM.run(f, trace=tr, rng=1)
                    fault['k'] = place_fault(tr, fault['fs'], fault['fo']) or 0
                if fault['k']:
                    return self.lib(f, {'k': fault['k'], 'exc': fault['exc']})
            return self.lib(f)
        return Linear(self.sc['plant'], run)


def execute(sc, ctx):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        _execute(sc, ctx)


def _execute(sc, ctx):
    loop = Loop(sc, ctx)
    try:
        L = loop.build()
    except Violation:
        raise
    except Exception as e:
        raise Violation('crash', 'building the controller raised %r' % e)
    ref = L                      # reference data does not change with restarts
    T = sc['steps']
    byt = {}
    for e in sc['events']:
        byt.setdefault(e['t'], []).append(e)
    s = L.reach(sc['x0']['d'])
    if s is None or s < 1e-3:
        ctx.count('degenerate-plant')
        return
    x = sc['x0']['s'] * s * np.array(sc['x0']['d'])
    lost = lambda x: None
    alive, part_until = True, -1
    plan, stamp = None, None       # what the actuator holds
    anchor = None                  # (V, accumulated stage cost since)
    safe = False                   # a valid plan has been adopted since the last kick
    fly = []                       # messages in flight: (arrival, order, kind, payload)
    order = 0
    everything = []                # every plan handed out, with a snapshot
    ctx.mark('plant', L.nx, L.nu, L.N)
    for t in range(T):
        E = byt.get(t, [])
        kinds = [e['k'] for e in E]
        for e in E:
            ctx.mark(t, e['k'])
            if e['k'] == 'kick':
                r = L.reach(e['d'])
                if r is None:
                    continue
                x = e['s'] * r * np.array(e['d'])
                plan = stamp = anchor = None
                safe = False
                ctx.count('fault/kick')
                ctx.log(t, 'kick', x)
            elif e['k'] == 'partition':
                part_until = max(part_until, t + e['for'])
                ctx.count('fault/partition')
            elif e['k'] == 'crash':
                alive = False
                ctx.count('fault/crash')
                # restart: only the specification survives
                try:
                    L = loop.build(e.get('fault'))
                    alive = True
                    ctx.log(t, 'restart ok')
                except Violation:
                    raise
                except BaseException as ex:
                    if not SEAM.fired:
                        raise Violation('crash', 'rebuilding the controller raised %r' % ex)
                    ctx.log(t, 'restart failed', type(ex).__name__)
        if not alive and 'crash' not in kinds:
            # retry without fault
            L = loop.build()
            alive = True
        parted = t < part_until

        # sensor -> controller
        def send(kind, payload, at):
            nonlocal order
            order += 1
            heapq.heappush(fly, (at, order, kind, payload))
        up = [t]
        if 'drop-up' in kinds or parted:
            up = []
            ctx.count('fault/drop')
        for e in E:
            if e['k'] == 'late-up' and up:
                up = [t + e['by']]
                ctx.count('fault/delay')
            if e['k'] == 'dup-up':
                up.append(t + e['by'])
                ctx.count('fault/duplicate')
        for a in up:
            send('meas', (t, x.copy()), a)
        # deliver everything due now; processing may emit plans due now
        while fly and fly[0][0] <= t:
            _, _, kind, pay = heapq.heappop(fly)
            if kind == 'meas':
                if not alive:
                    continue
                ts, xm = pay
                keep = xm.copy()
                out = solve(loop, L, xm, next((e for e in E if e['k'] == 'solver'), None), sc, ctx, t)
                if not np.array_equal(xm, keep):
                    raise Violation('altered', 'the controller changed the measurement')
                if out is None:
                    continue
                u, V = out
                m = None
                if u is None:
                    m = ref.margin(xm)
                    if m is not None and m > 1e-6:
                        raise Violation('false-infeasible', 'state %s has feasibility margin %s but the controller has no plan' % (xm, m))
                    ctx.count('infeasible-reported')
                    if ts == t and safe and m is not None and m < -1e-5 * (1 + np.max(np.abs(xm))):
                        raise Violation('recursive-feasibility', 'the loop reached %s, infeasible by %s' % (xm, m))
                    continue
                check_plan(ref, xm, u, V, ctx)
                everything.append((u, [np.array(v) for v in u]))
                down = [t]
                if 'drop-down' in kinds or parted:
                    down = []
                    ctx.count('fault/drop')
                for e in E:
                    if e['k'] == 'late-down' and down:
                        down = [t + e['by']]
                        ctx.count('fault/delay')
                    if e['k'] == 'dup-down':
                        down.append(t + e['by'])
                        ctx.count('fault/duplicate')
                for a in down:
                    send('plan', (ts, u, V), a)
            else:
                ts, u, V = pay
                if ts != t:
                    ctx.count('late-plan-ignored')
                    continue
                if anchor is not None and V > anchor[0] - anchor[1] + 1e-5 * (1 + abs(anchor[0])):
                    raise Violation('cost-increase', 'at step %d the cost is %s; it was %s and %s has been paid since' % (t, V, anchor[0], anchor[1]))
                if anchor is not None:
                    ctx.count('checked/cost-decrease')
                plan, stamp, anchor, safe = u, t, [V, 0.], True
        if plan is not None and t - stamp < ref.N:
            u = np.array(plan[t - stamp], float)
            if t > stamp:
                ctx.nontrivial = True
                ctx.count('open-loop-step')
        elif plan is not None:
            u = ref.law.dot(x)
            ctx.nontrivial = True
            ctx.count('terminal-law-step')
        else:
            # nothing to play yet: the plant is parked until a plan arrives
            ctx.simtime += 1
            continue
        g = ref.violation(x, u)
        if g > 1e-5 * (1 + np.max(np.abs(x))):
            raise Violation('unsafe', 'at step %d the loop violates the constraints by %s (x=%s, u=%s, plan of step %s)' % (t, g, x, u, stamp))
        anchor[1] += ref.stage(x, u)
        x = ref.step(x, u)
        ctx.log(t, 'x', x, 'u', u)
        ctx.simtime += 1
        for live, snap in everything:
            if any(not np.array_equal(a, b) for a, b in zip(live, snap)) or len(live) != len(snap):
                raise Violation('altered', 'a plan handed out earlier changed')


def solve(loop, L, x, ev, sc, ctx, t):
    """Asks the controller. None if it failed because of the injected fault."""
    call = lambda: L.mpc.feedforward(x)
    fault = None
    if ev is not None:
        f = ev['fault']
        if 'k' not in f:
            tr = []
            SEAM.run(call, trace=tr, rng=1)
            f['k'] = place_fault(tr, f['fs'], f['fo']) or 0
        if f['k']:
            fault = {'k': f['k'], 'exc': f['exc']}
    try:
        out = loop.lib(call, fault)
    except Violation:
        raise
    except BaseException as e:
        if SEAM.fired:
            ctx.log(t, 'solver fault', type(e).__name__)
            ctx.mark('fault', SEAM.fired['site'], SEAM.fired['kind'])
            return None
        raise Violation('crash', 'feedforward(%s) raised %r' % (x, e))
    try:
        u, V = out
        if u is not None:
            u = list(u)
            V = float(V)
        elif V is not None:
            raise ValueError('no plan, but a cost')
    except Exception as e:
        raise Violation('malformed', 'feedforward answered %r: %r' % (out, e))
    if sc['ask'] == 'both' and not SEAM.fired:
        try:
            fb = loop.lib(lambda: L.mpc.feedback(x))
        except Exception as e:
            raise Violation('crash', 'feedback(%s) raised %r' % (x, e))
        if (fb is None) != (u is None) or fb is not None and np.max(np.abs(np.asarray(fb) - u[0])) > 1e-7:
            raise Violation('feedback', 'feedback is %s, the plan starts with %s' % (fb, u and u[0]))
    return u, V
