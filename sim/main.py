"""python -m sim.main PROPERTY [--tier quick|thorough] [--runs N] [--replay FILE] ...

exit 0: the property held on everything explored; exit 1 and a VIOLATION line: it is broken;
exit 2: the check itself failed."""
import argparse
import faulthandler
import importlib
import json
import multiprocessing as mp
import os
import subprocess
import sys
import time
import traceback

from sim import core

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.path.join(HERE, 'evidence')
REPLAYS = os.path.join(HERE, 'replays')


def load(prop):
    from sim.seams import SEAM
    mod = importlib.import_module('sim.props.' + prop.lower())
    SEAM.install()
    return mod


def tree_seed():
    return int(os.environ.get('VERIF_SEED', '1') or '1')


# -- workers ------------------------------------------------------------------------

def worker(prop, tier, base, nxt, total, budget, stop, cur, started, conn):
    t_end = time.monotonic() + budget
    fd = os.open(os.devnull, os.O_WRONLY)
    os.dup2(fd, 1)                # pympc, gurobi and HiGHS may print
    out = {'runs': 0, 'viol': None, 'counts': {}, 'sigs': set(), 'nontriv': set(), 'samples': [], 'digests': {},
           'simtime': 0., 'history': [], 'truncated': False, 'error': None}
    try:
        mod = load(prop)
        from sim.seams import SEAM
        while True:
            with nxt.get_lock():        # which worker takes a run does not change the run
                i = nxt.value
                nxt.value += 1
            if stop.value or i >= total:
                break
            if time.monotonic() > t_end:
                out['truncated'] = True
                break
            seed = core.derive_seed(base, prop, i)
            cur.value = i
            started.value = time.time()
            out['history'].append(seed)
            v, ctx, sc = core.run_seed(mod, seed, tier)
            out['runs'] += 1
            for k, n in ctx.n.items():
                out['counts'][k] = out['counts'].get(k, 0) + n
            out['simtime'] += ctx.simtime
            sig = ctx.sig.hexdigest()[:20]
            out['sigs'].add(sig)
            if ctx.nontrivial:
                out['nontriv'].add(sig)
            if i % 97 == 0:
                out['digests'][seed] = ctx.h.hexdigest()
            if len(out['samples']) < 1 and ctx.nontrivial:
                out['samples'].append(sc)
            if v is not None:
                out['viol'] = {'kind': v.kind, 'detail': v.detail, 'scenario': sc, 'index': i, 'seed': seed}
                stop.value = 1
                break
        for k, n in SEAM.kinds.items():
            out['counts']['fault/' + k] = out['counts'].get('fault/' + k, 0) + n
    except BaseException:
        out['error'] = traceback.format_exc()
    started.value = 0.
    conn.send(out)
    conn.close()


def reproduce(path, timeout=300):
    """Runs the replay file in a fresh process: the kind of violation, or None."""
    p = subprocess.run([sys.executable, '-m', 'sim.main', '--replay', path, '--quiet'], cwd=HERE,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    for line in p.stdout.decode('utf-8', 'replace').splitlines():
        if line.startswith('REPLAYED '):
            return line[9:].strip()
    return None


def write_replay(prop, seed, body):
    os.makedirs(REPLAYS, exist_ok=True)
    path = os.path.join(REPLAYS, '%s-%d.json' % (prop, seed))
    with open(path, 'w') as f:
        json.dump(body, f, indent=1)
    return path


def minimise_in_child(prop, sc, kind, secs):
    """Minimises in a forked child, so that state left by earlier runs does not interfere."""
    r, s = mp.Pipe(False)

    def go():
        sys.stdout = open(os.devnull, 'w')
        try:
            mod = load(prop)
            best, tried = core.minimise(mod, sc, kind, time.monotonic, time.monotonic() + secs)
            v, ctx, best = core.run_scenario(mod, best, keep=True)
            s.send((best, tried, ctx.events[-200:], v.kind if v else None, v.detail if v else None))
        except BaseException:
            s.send(None)
    p = mp.get_context('fork').Process(target=go)
    p.start()
    res = r.recv() if r.poll(secs + 120) else None
    p.join(5)
    if p.is_alive():
        p.kill()
    return res


def report(prop, v, history):
    """Minimise, write the replay file, check it in a fresh process."""
    sc, kind = v['scenario'], v['kind']
    body = {'prop': prop, 'kind': kind, 'detail': v['detail'], 'seed': v['seed'], 'run_index': v['index'], 'scenario': sc}
    res = minimise_in_child(prop, sc, kind, 60)
    if res is not None and res[3] == kind:
        small = dict(body, scenario=res[0], detail=res[4], events=res[2], minimised_from=core.describe(sc),
                     minimised_to=core.describe(res[0]), candidates_tried=res[1])
        path = write_replay(prop, v['seed'], small)
        if reproduce(path) == kind:
            return path, small
    path = write_replay(prop, v['seed'], body)
    if reproduce(path) == kind:
        return path, body
    # the violation needs state that earlier runs of the same process left behind: replay them too
    hist = history[:]
    full = dict(body, prefix_seeds=hist[:-1])
    path = write_replay(prop, v['seed'], full)
    if reproduce(path, 900) == kind:
        keep = hist[:-1]
        t_end = time.monotonic() + 90
        size = max(1, len(keep) // 2)
        while size >= 1 and time.monotonic() < t_end:
            i = 0
            while i < len(keep) and time.monotonic() < t_end:
                c = keep[:i] + keep[i + size:]
                write_replay(prop, v['seed'], dict(body, prefix_seeds=c))
                if reproduce(path, 900) == kind:
                    keep = c
                else:
                    i += size
            size //= 2
        full = dict(body, prefix_seeds=keep)
        write_replay(prop, v['seed'], full)
        return path, full
    write_replay(prop, v['seed'], dict(full, note='did not reproduce in a fresh process'))
    return path, full


def known_findings(prop):
    out = []
    p = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith('finding: property=%s ' % prop):
                out.append(line[len('finding: '):])
    return out


def check(prop, tier, runs, budget, workers, base):
    t0 = time.time()
    mod = importlib.import_module('sim.props.' + prop.lower())
    total = runs or mod.RUNS[tier]
    budget = budget or (400 if tier == 'quick' else 3 * 3600)
    ctxm = mp.get_context('fork')
    stop = ctxm.Value('i', 0, lock=False)
    nxt = ctxm.Value('q', 0)
    procs = []
    died = []

    def spawn():
        r, s = ctxm.Pipe(False)
        cur, st = ctxm.Value('q', -1, lock=False), ctxm.Value('d', 0., lock=False)
        p = ctxm.Process(target=worker, args=(prop, tier, base, nxt, total, budget, stop, cur, st, s))
        p.start()
        s.close()
        procs.append([p, r, cur, st, None])
        return procs[-1]

    def dead(q):
        """A native library took the worker down: the run is given up and reported, another worker carries on."""
        q[0].join(5)
        died.append(q[2].value)
        pending.remove(q)
        if len(died) > 4:
            errors.append('worker died (exit %s) at run %d' % (q[0].exitcode, q[2].value))
        else:
            pending.append(spawn())
    for w in range(workers):
        spawn()
    viol, errors = [], []
    pending = list(procs)
    while pending:
        for q in list(pending):
            p, r, cur, st, _ = q
            if r.poll(0.05):
                try:
                    q[4] = r.recv()
                    pending.remove(q)
                except EOFError:
                    dead(q)
            elif not p.is_alive() and not r.poll(0.2):
                dead(q)
            elif st.value and time.time() - st.value > 300:
                p.kill()
                pending.remove(q)
                i = cur.value
                stop.value = 1
                viol.append(({'kind': 'no-progress', 'detail': 'run %d did not end within 300 s' % i, 'index': i,
                              'seed': core.derive_seed(base, prop, i),
                              'scenario': {'prop': prop, 'from_seed': core.derive_seed(base, prop, i), 'tier': tier}}, None))
    for q in procs:
        q[0].join(5)
    outs = [q[4] for q in procs if q[4]]
    for o in outs:
        if o['error']:
            errors.append(o['error'])
        if o['viol']:
            viol.append((o['viol'], o['history']))
    counts, sigs, nontriv, digests = {}, set(), set(), {}
    for o in outs:
        for k, n in o['counts'].items():
            counts[k] = counts.get(k, 0) + n
        sigs |= o['sigs']
        nontriv |= o['nontriv']
        digests.update(o['digests'])
    nruns = sum(o['runs'] for o in outs)
    simtime = sum(o['simtime'] for o in outs)
    truncated = any(o['truncated'] for o in outs)
    samples = [s for o in outs for s in o['samples']][:2]
    explore_s = time.time() - t0

    code = 0
    if viol:
        viol.sort(key=lambda t: t[0]['index'])
        v, hist = viol[0]
        if hist is None:
            path = write_replay(prop, v['seed'], {'prop': prop, 'kind': v['kind'], 'detail': v['detail'], 'seed': v['seed'], 'scenario': v['scenario']})
            body = {}
        else:
            path, body = report(prop, v, hist)
        print('violation: %s %s' % (v['kind'], (body.get('detail') or v['detail'])[:2000]))
        print('run index %d, seed %d (VERIF_SEED=%d)' % (v['index'], v['seed'], base))
        print('VIOLATION property=%s replay=%s' % (prop, path))
        code = 1
    elif errors:
        sys.stderr.write('\n'.join(errors) + '\n')
        code = 2
    else:
        # same seeds again, in this process: same event logs?
        rep = {'rechecked': 0, 'different': 0}
        for i, (seed, dg) in enumerate(sorted(digests.items())[:3]):
            so, sys.stdout = sys.stdout, open(os.devnull, 'w')
            try:
                m2 = load(prop)
                _, c, _ = core.run_seed(m2, seed, tier)
            finally:
                sys.stdout = so
            rep['rechecked'] += 1
            rep['different'] += c.h.hexdigest() != dg
        counts['determinism/rechecked'] = rep['rechecked']
        counts['determinism/different'] = rep['different']
        for k in known_findings(prop):
            print('KNOWN-FINDING: ' + k)

    wall = time.time() - t0
    faults = {k[6:]: n for k, n in sorted(counts.items()) if k.startswith('fault/')}
    cov = {
        'evaluations': nruns,
        'distinct_nontrivial': len(nontriv),
        'rule': mod.RULE,
        'samples': samples,
        'distinct_runs': len(sigs),
        'runs_per_hour': int(nruns / max(explore_s, 1e-9) * 3600),
        'seeds': {'VERIF_SEED': base, 'first_index': 0, 'runs_planned': total, 'truncated_by_wall_clock': truncated, 'given_up': died},
        'simulated_time': {'amount': round(simtime, 3), 'unit': getattr(mod, 'TIME_UNIT', 'operations')},
        'faults_injected': faults,
        'probes': {k: n for k, n in sorted(counts.items()) if not k.startswith('fault/')},
        'real_code': mod.REAL,
        'stubs': mod.STUB,
        'workers': workers,
    }
    ev = {'property': prop, 'tier': tier, 'seed': base, 'level': 'exploration', 'coverage': cov,
          'assumptions': mod.ASSUMPTIONS, 'wall_s': round(wall, 2), 'violations': len(viol)}
    os.makedirs(EVID, exist_ok=True)
    tmp = os.path.join(EVID, '.%s.tmp' % prop)
    with open(tmp, 'w') as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, os.path.join(EVID, prop + '.json'))
    if code == 0:
        print('%s: held on %d runs (%d distinct non-trivial), %d faults injected, %.1f s' % (prop, nruns, len(nontriv), sum(faults.values()), wall))
    return code


def replay(path, quiet):
    body = json.load(open(path))
    prop = body['prop']
    mod = load(prop)
    so = sys.stdout
    if quiet:
        sys.stdout = open(os.devnull, 'w')
    for s in body.get('prefix_seeds', []):
        core.run_seed(mod, s, body.get('tier', 'quick'))
    sc = body['scenario']
    if 'from_seed' in sc:
        v, ctx, _ = core.run_seed(mod, sc['from_seed'], sc.get('tier', 'quick'), keep=True)
    else:
        v, ctx, _ = core.run_scenario(mod, sc, keep=True)
    sys.stdout = so
    if not quiet:
        for e in ctx.events:
            print('  ' + e[:400])
    if v is None:
        print('REPLAYED no violation')
        return 0
    print('REPLAYED ' + v.kind)
    if not quiet:
        print(v.detail[:2000])
        print('VIOLATION property=%s replay=%s' % (prop, path))
    return 1


def main():
    faulthandler.enable()
    ap = argparse.ArgumentParser()
    ap.add_argument('prop', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--runs', type=int)
    ap.add_argument('--budget', type=float)
    ap.add_argument('--workers', type=int, default=int(os.environ.get('SIM_WORKERS', '8')))
    ap.add_argument('--replay')
    ap.add_argument('--one', type=int, help='run one index in this process and print its log')
    ap.add_argument('--digests', type=int, help='print the event-log digests of the first N runs')
    ap.add_argument('--quiet', action='store_true')
    a = ap.parse_args()
    if a.replay:
        sys.exit(replay(a.replay, a.quiet))
    base = tree_seed()
    if a.one is not None:
        mod = load(a.prop)
        v, ctx, sc = core.run_seed(mod, core.derive_seed(base, a.prop, a.one), a.tier, keep=True)
        for e in ctx.events:
            print(e[:300])
        print(ctx.n, v)
        sys.exit(1 if v else 0)
    if a.digests is not None:
        so, sys.stdout = sys.stdout, open(os.devnull, 'w')
        mod = load(a.prop)
        L = []
        for i in range(a.digests):
            s = core.derive_seed(base, a.prop, i)
            L.append('%d %s' % (s, core.run_seed(mod, s, a.tier)[1].h.hexdigest()))
        sys.stdout = so
        print('\n'.join(L))
        sys.exit(0)
    sys.exit(check(a.prop, a.tier, a.runs, a.budget, a.workers, base))


if __name__ == '__main__':
    try:
        main()
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        sys.exit(2)
