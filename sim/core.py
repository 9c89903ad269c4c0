"""Seeds, runs, minimisation, replay: everything that is common to the properties."""
import copy
import hashlib
import json
import random
import traceback


class Violation(Exception):
    """The property does not hold. `kind` is the class that must persist while minimising."""

    def __init__(self, kind, detail=''):
        Exception.__init__(self, '%s: %s' % (kind, detail))
        self.kind, self.detail = kind, detail


class HarnessError(Exception):
    pass


def derive_seed(base, prop, index):
    h = hashlib.sha256(('%d/%s/%d' % (base, prop, index)).encode()).digest()
    return int.from_bytes(h[:7], 'big')


class Ctx(object):
    """What one run records. Nothing here draws random numbers or reads a clock."""

    def __init__(self):
        self.h = hashlib.sha256()
        self.sig = hashlib.sha256()
        self.n = {}
        self.events = []
        self.keep = False
        self.nontrivial = False
        self.simtime = 0.

    def log(self, *parts):
        s = ' '.join(fmt(p) for p in parts)
        self.h.update(s.encode() + b'\n')
        if self.keep:
            self.events.append(s)

    def mark(self, *parts):
        """Contributes to the signature by which runs are called distinct."""
        self.sig.update((' '.join(str(p) for p in parts)).encode() + b'\n')

    def count(self, k, v=1):
        self.n[k] = self.n.get(k, 0) + v


def fmt(p):
    import numpy as np
    if isinstance(p, float) or isinstance(p, np.floating):
        return '%.5g' % (p + 0.)if abs(p) > 1e-7 else '0'
    if isinstance(p, np.ndarray):
        return '[' + ','.join(fmt(float(v)) for v in p.ravel()) + ']'
    if isinstance(p, (list, tuple)):
        return '[' + ','.join(fmt(v) for v in p) + ']'
    return str(p)


def run_scenario(mod, sc, keep=False):
    """Executes one scenario. Returns (violation or None, ctx, resolved scenario)."""
    ctx = Ctx()
    ctx.keep = keep
    sc = copy.deepcopy(sc)
    try:
        mod.execute(sc, ctx)
        return None, ctx, sc
    except Violation as v:
        ctx.log('VIOLATION', v.kind)
        return v, ctx, sc


def run_seed(mod, seed, tier, keep=False):
    rng = random.Random(seed)
    sc = mod.generate(rng, tier)
    sc['prop'] = mod.ID
    sc['seed'] = seed
    json.dumps(sc)
    return run_scenario(mod, sc, keep)


# -- minimisation -----------------------------------------------------------------

def candidates(sc):
    """Smaller scenarios, most aggressive first."""
    if sc.get('fault'):
        c = copy.deepcopy(sc)
        del c['fault']
        yield c
    for key in ('ops', 'events', 'switches', 'setup'):
        L = sc.get(key)
        if not L:
            continue
        n = len(L)
        size = n
        while size >= 1:
            for i in range(0, n, size):
                c = copy.deepcopy(sc)
                del c[key][i:i + size]
                if len(c[key]) < n:
                    yield c
            size //= 2
    if 'steps' in sc and sc['steps'] > 1:
        for s in sorted({1, sc['steps'] // 2, sc['steps'] - 1}):
            if 0 < s < sc['steps']:
                c = copy.deepcopy(sc)
                c['steps'] = s
                yield c
    for i, op in enumerate(sc.get('ops', [])):
        if isinstance(op, dict) and op.get('fault'):
            c = copy.deepcopy(sc)
            c['ops'][i].pop('fault')
            yield c
        if isinstance(op, dict) and isinstance(op.get('pts'), list) and len(op['pts']) > 1:
            c = copy.deepcopy(sc)
            c['ops'][i]['pts'] = op['pts'][:len(op['pts']) // 2]
            yield c
            c = copy.deepcopy(sc)
            c['ops'][i]['pts'] = op['pts'][len(op['pts']) // 2:]
            yield c


def minimise(mod, sc, kind, clock, deadline):
    """Greedy: keep the first smaller scenario that fails in the same class, until none does."""
    tried = 0
    gen = getattr(mod, 'candidates', candidates)
    progress = True
    while progress and clock() < deadline:
        progress = False
        for c in gen(sc):
            if clock() > deadline:
                break
            tried += 1
            try:
                v, _, res = run_scenario(mod, c)
            except Exception:
                continue
            if v is not None and v.kind == kind:
                sc = res
                progress = True
                break
    return sc, tried


def describe(sc):
    return {'ops': len(sc.get('ops', [])), 'events': len(sc.get('events', [])), 'switches': len(sc.get('switches', []))}
