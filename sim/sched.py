"""Threads under a scheduler: one runs at a time, and only the scheduler decides who.

Every simulated thread is a real one that owns a semaphore. Each bytecode instruction that pympc executes is a
step; the schedule is a list of [step, thread]: at that step the running thread is suspended and the other one
continues. When a thread ends, the lowest-numbered one that is alive continues. One list of switches is one execution.
"""
import threading

from sim.seams import SEAM, SimStop, Injected


class Sched(object):

    def __init__(self, thunks, switches, budget=60000000, record=None):
        self.thunks = thunks
        self.sw = sorted([list(s) for s in switches])
        self.budget, self.record = budget, record
        self.step = 0
        self.taken = 0
        self.trace = []
        self.cur = None
        self.free = False
        n = len(thunks)
        self.sem = [threading.Semaphore(0) for _ in range(n)]
        self.alive = [True] * n
        self.out = [None] * n
        self.done = threading.Semaphore(0)
        self.ident = {}

    def hook(self, code, off):
        i = self.ident.get(threading.get_ident())
        if i is None or self.free:
            return
        self.step += 1
        if self.record is not None and len(self.record) < 400000:
            self.record.append((code, off))
        if self.step > self.budget:
            self.sw = []
            raise SimStop('step budget exceeded')
        while self.sw and self.sw[0][0] <= self.step:
            t = self.sw.pop(0)[1] % len(self.thunks)
            n = len(self.thunks)
            t = next((j % n for j in range(t, t + n) if j % n != i and self.alive[j % n]), None)
            if t is not None:
                self.taken += 1
                self.trace.append((i, t, code.co_qualname, off))
                self.sem[t].release()
                self.sem[i].acquire()
                return

    def body(self, i):
        self.sem[i].acquire()
        self.ident[threading.get_ident()] = i
        try:
            self.out[i] = ('ok', self.thunks[i]())
        except BaseException as e:
            self.out[i] = ('exc', e)
        self.alive[i] = False
        for j, a in enumerate(self.alive):
            if a:
                self.sem[j].release()
                return
        self.done.release()

    def run(self, first=0, fault=None):
        """Returns the list of ('ok', value) / ('exc', exception), or None if the threads blocked each other."""
        th = [threading.Thread(target=self.body, args=(i,), daemon=True) for i in range(len(self.thunks))]
        SEAM.enable_switching(True)
        SEAM.switch_hook = self.hook
        SEAM.calls = SEAM.steps = SEAM.optimizes = 0
        SEAM.budget, SEAM.trace, SEAM.limit_fault, SEAM.fired = None, None, None, None
        SEAM.fault = dict(fault) if fault else None
        SEAM.on = True
        try:
            for t in th:
                t.start()
            self.sem[first % len(th)].release()
            last = -1
            while not self.done.acquire(timeout=20):
                if self.step == last:
                    self.free = True          # blocked on a lock of their own: let them run freely, do not judge
                    for s in self.sem:
                        s.release()
                    for t in th:
                        t.join(60)
                    return None
                last = self.step
        finally:
            SEAM.on = False
            SEAM.switch_hook = None
            SEAM.fault = None
        for t in th:
            t.join(10)
        return self.out
