"""The seams between pympc and everything it does not control.

No hook is needed in /repo: CPython's sys.monitoring delivers, for pympc's code
objects only, an event at every call they make (CALL), every loop iteration or
branch (JUMP/BRANCH) and, in thread simulations, every instruction (INSTRUCTION).  From these events

* every call that leaves pympc (numpy, scipy, qhull, gurobi, sympy, copy ...) is a
  fault point: the simulator may make it fail before it runs;
* every gurobi ``optimize`` is a point where the simulator may make the solver
  stop early (real parameters of the real solver);
* every event is a step: a run that exceeds its step budget makes no progress;
* every bytecode instruction of pympc is a point where the simulator may switch thread (see sched.py).

Random numbers: numpy's and python's global generators are reseeded from the run's
seed before each operation, and `RandomSeam` can replace the legal draws.
"""
import sys
import gc
import types
import random
import importlib
import pkgutil

REPO = '/repo'
TOOL = 3

import numpy as np


class SimStop(BaseException):
    """Raised inside pympc when it exceeds its step budget."""


class Injected(object):
    """Mixin that marks the exceptions raised by the simulator."""


class InjRuntimeError(RuntimeError, Injected):
    pass


class InjLinAlgError(np.linalg.LinAlgError, Injected):
    pass


class InjMemoryError(MemoryError, Injected):
    pass


class InjInterrupt(KeyboardInterrupt, Injected):
    pass


class InjOSError(OSError, Injected):
    pass


_TRIVIAL = {'range', 'len', 'isinstance', 'enumerate', 'sorted', 'list', 'set', 'zip', 'str', 'any', 'all',
            'min', 'max', 'abs', 'print', 'dict', 'tuple', 'int', 'float', 'bool', 'type', 'super', 'map',
            'iter', 'next', 'reversed', 'getattr', 'hasattr', 'setattr', 'property', 'staticmethod', 'ValueError',
            'TypeError', 'hash', 'id', 'repr', 'object', 'filter', 'round', 'divmod', 'sum', 'frozenset', 'slice'}


def _callee(fn):
    """(module, name) of a callable, cheap and without side effects."""
    mod = getattr(fn, '__module__', None)
    name = getattr(fn, '__qualname__', None) or getattr(fn, '__name__', None) or type(fn).__name__
    if not isinstance(mod, str):
        mod = type(getattr(fn, '__self__', fn)).__module__ if not isinstance(fn, type) else fn.__module__
    return str(mod), str(name)


class Seam(object):

    def __init__(self):
        self.installed = False
        self.on = False
        self.fault = None
        self.calls = 0
        self.steps = 0
        self.budget = None
        self.trace = None
        self.fired = None
        self.limit_fault = None
        self.optimizes = 0
        self.switch_hook = None
        self.kinds = {}
        self.codes = []
        self.switching = False

    # -- installation -----------------------------------------------------
    def install(self):
        if self.installed:
            return
        if sys.path[0] != REPO:
            sys.path.insert(0, REPO)
        import pympc
        if not pympc.__file__.startswith(REPO + '/'):
            raise RuntimeError('pympc comes from %s, not from %s' % (pympc.__file__, REPO))
        for m in pkgutil.walk_packages(pympc.__path__, 'pympc.'):
            if '.test' in m.name or m.name.endswith('.drake'):
                continue
            importlib.import_module(m.name)
        import gurobipy
        self.grb = gurobipy
        gurobipy.setParam('OutputFlag', 0)
        gurobipy.setParam('Threads', 1)
        gurobipy.setParam('Seed', 0)
        from scipy.spatial import QhullError

        class InjQhullError(QhullError, Injected):
            pass

        try:
            class InjGurobiError(gurobipy.GurobiError, Injected):
                pass
        except TypeError:
            InjGurobiError = InjRuntimeError
        self.InjQhullError = InjQhullError
        self.InjGurobiError = InjGurobiError

        seen = set()

        def walk(code):
            if code in seen:
                return
            seen.add(code)
            for k in code.co_consts:
                if isinstance(k, types.CodeType):
                    walk(k)
        root = REPO + '/pympc'
        for o in gc.get_objects():
            if isinstance(o, types.FunctionType) and o.__code__.co_filename.startswith(root):
                walk(o.__code__)
        self.codes = sorted(seen, key=lambda c: (c.co_filename, c.co_firstlineno, c.co_qualname))
        M = sys.monitoring
        M.use_tool_id(TOOL, 'sim')
        M.register_callback(TOOL, M.events.CALL, self._on_call)
        M.register_callback(TOOL, M.events.JUMP, self._on_jump)
        M.register_callback(TOOL, M.events.BRANCH, self._on_jump)
        M.register_callback(TOOL, M.events.INSTRUCTION, self._on_instruction)
        self._set_events()
        self.installed = True

    def _set_events(self):
        M = sys.monitoring
        ev = M.events.CALL | M.events.JUMP | M.events.BRANCH
        if self.switching:
            ev |= M.events.INSTRUCTION
        for c in self.codes:
            M.set_local_events(TOOL, c, ev)

    def enable_switching(self, on):
        if on != self.switching:
            self.switching = on
            self._set_events()

    # -- events ---------------------------------------------------------------
    def _step(self):
        self.steps += 1
        if self.budget is not None and self.steps > self.budget:
            self.budget = None
            raise SimStop('step budget exceeded')

    def _on_jump(self, code, off, dest):
        if self.on:
            self._step()

    def _on_instruction(self, code, off):
        if self.switch_hook is not None:
            self.switch_hook(code, off)

    def _kind(self, fn):
        """None if the callee is pympc's own code or a trivial builtin, otherwise a backend name."""
        if isinstance(fn, types.MethodType):
            fn = fn.__func__
        if isinstance(fn, types.FunctionType) and fn.__code__.co_filename.startswith(REPO + '/pympc'):
            return None
        mod, name = _callee(fn)
        if isinstance(fn, type) and mod.startswith('pympc'):
            return None
        if mod == 'builtins':
            if isinstance(fn, type) or name in _TRIVIAL or '.' in name and not name.startswith('ndarray'):
                return None
        if name.split('.')[0] in ('list', 'dict', 'set', 'str', 'tuple', 'Counter'):
            return None
        if 'nnls' in mod or name == 'nnls':
            return 'nnls'
        if 'qhull' in mod.lower():
            return 'qhull'
        if mod.startswith('gurobipy') or 'gurobi' in mod:
            return 'gurobi'
        if mod.startswith('numpy.linalg') or mod.startswith('scipy.linalg'):
            return 'linalg'
        if mod.startswith('matplotlib'):
            return 'plot'
        if mod.startswith('sympy'):
            return 'sympy'
        return 'alloc'

    def _on_call(self, code, off, fn, arg0):
        if not self.on:
            return
        self._step()
        kind = self._kind(fn)
        if kind is None:
            return
        self.calls += 1
        n = self.calls
        if self.trace is not None:
            self.trace.append((code.co_qualname, _callee(fn)[1], kind))
        if kind == 'gurobi' and _callee(fn)[1].endswith('optimize'):
            self.optimizes += 1
            lf = self.limit_fault
            if lf is not None and self.optimizes == lf['k']:
                model = arg0 if isinstance(arg0, self.grb.Model) else getattr(fn, '__self__', None)
                if isinstance(model, self.grb.Model):
                    for p, v in lf['params'].items():
                        model.setParam(p, v)
                    self.fired = {'kind': 'limit', 'params': lf['params'], 'site': code.co_qualname}
                    self.kinds['limit:' + '+'.join(sorted(lf['params']))] = self.kinds.get('limit:' + '+'.join(sorted(lf['params'])), 0) + 1
        f = self.fault
        if f is not None and n == f['k']:
            self.fault = None
            exc = self.make(f['exc'], kind)
            label = f['exc'] + ':' + kind if f['exc'] == 'backend' else f['exc']
            self.kinds[label] = self.kinds.get(label, 0) + 1
            self.fired = {'kind': label, 'site': code.co_qualname, 'callee': _callee(fn)[1], 'k': n}
            raise exc

    def make(self, exc, kind):
        if exc == 'interrupt':
            return InjInterrupt('injected interrupt')
        if exc == 'memory':
            return InjMemoryError('injected allocation failure')
        if kind == 'nnls':
            return InjRuntimeError('too many iterations (injected)')
        if kind == 'qhull':
            return self.InjQhullError('injected qhull failure')
        if kind == 'linalg':
            return InjLinAlgError('injected: did not converge')
        if kind == 'gurobi':
            try:
                return self.InjGurobiError(10009, 'injected gurobi failure')
            except TypeError:
                return self.InjGurobiError('injected gurobi failure')
        return InjMemoryError('injected allocation failure')

    # -- running an operation -------------------------------------------------
    def run(self, fn, fault=None, limit=None, budget=400000, trace=None, rng=None):
        """Runs fn() inside the simulation.  Returns ('ok', value) or ('exc', exception)."""
        if rng is not None:
            np.random.seed(rng & 0xffffffff)
            random.seed(rng)
        self.calls = self.steps = self.optimizes = 0
        self.budget = budget
        self.fault = dict(fault) if fault else None
        self.limit_fault = dict(limit) if limit else None
        self.fired = None
        self.trace = trace
        self.on = True
        try:
            return 'ok', fn()
        except BaseException as e:
            if isinstance(e, (SystemExit,)) or (isinstance(e, KeyboardInterrupt) and not isinstance(e, Injected)):
                raise
            return 'exc', e
        finally:
            self.on = False
            self.fault = self.limit_fault = None
            self.trace = None


SEAM = Seam()


def place_fault(trace, frac_site, frac_occ):
    """Picks a fault point from the list of backend calls of a dry run: a distinct call
    site first, then one of its occurrences, so that rarely used sites are not drowned."""
    if not trace:
        return None
    sites = {}
    for i, t in enumerate(trace):
        sites.setdefault(t, []).append(i + 1)
    keys = sorted(sites)
    occ = sites[keys[int(frac_site * len(keys)) % len(keys)]]
    return occ[int(frac_occ * len(occ)) % len(occ)]


class RandomSeam(object):
    """Replaces the draws of numpy.random.rand by other legal ones (buggify)."""

    def __init__(self, mode, seed):
        self.mode, self.r, self.draws = mode, random.Random(seed), 0

    def _one(self):
        u = self.r.random()
        m = self.mode
        if m == 'small':
            return 0.01 + 0.02 * u
        if m == 'large':
            return 0.97 + 0.02999 * u
        if m == 'narrow':
            return 0.4 + 0.1 * u
        return u

    def rand(self, *shape):
        n = int(np.prod(shape)) if shape else 1
        self.draws += n
        v = np.array([self._one() for _ in range(n)])
        return v.reshape(shape) if shape else float(v[0])

    def __enter__(self):
        self.saved = {k: getattr(np.random, k) for k in ('rand', 'random', 'random_sample')}
        np.random.rand = self.rand
        np.random.random = np.random.random_sample = lambda size=None: self.rand(*(() if size is None else np.atleast_1d(size).tolist()))
        return self

    def __exit__(self, *a):
        for k, v in self.saved.items():
            setattr(np.random, k, v)
