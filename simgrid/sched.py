"""The scheduler: decides, event by event, what the Python code of the package
does next.

An event is the execution of a line (or, in opcode mode, of one bytecode
instruction) of a file of the package.  At an event the simulator can raise an
interrupt or a MemoryError in the running code, call an invariant, or hand the
baton to another simulated thread.  Exactly one simulated thread runs at any
time; every hand-over comes from the plan, so a run is a function of its plan.
"""
import os
import sys
import threading

from . import disk

REPO = os.environ.get('SIM_REPO', '/repo')
PKG = os.path.realpath(os.path.join(REPO, 'simplegrid')) + os.sep

_real_lock = threading.Lock
_real_rlock = threading.RLock

EXC = {'KeyboardInterrupt': KeyboardInterrupt, 'MemoryError': MemoryError}


class StepBudget(BaseException):
    pass


class SimAbort(BaseException):
    """Ends a simulated thread after another one found the run stuck."""


def _ours(code, cache={}):
    fn = code.co_filename
    r = cache.get(fn)
    if r is None:
        r = cache[fn] = os.path.realpath(fn).startswith(PKG) and (os.sep + 'tests' + os.sep) not in fn
    return r


class Tracer:
    """Single-threaded: count events, call `at[n]`() at event n, call
    `every`() each `period` events."""

    def __init__(self, opcodes=False, inject=None, every=None, period=0, budget=3000000, sites=False):
        self.n = 0
        self.sites = {} if sites else None    # line -> some of the events there
        self.opcodes = opcodes
        self.inject = dict(inject or {})      # event number -> exception name
        self.every, self.period = every, period
        self.budget = budget
        self.fired = []
        self.where = []

    def event(self, frame):
        n = self.n
        self.n = n + 1
        if n > self.budget:
            raise StepBudget()
        if self.sites is not None:
            v = self.sites.setdefault((frame.f_code.co_filename, frame.f_lineno), [0])
            v[0] += 1
            if len(v) < 8:
                v.append(n)
            elif v[0] & (v[0] - 1) == 0:
                v[1 + v[0].bit_length() % 7] = n
        if self.period and n % self.period == 0:
            sys.settrace(None)
            try:
                self.every()
            finally:
                sys.settrace(self.glob)
        if n in self.inject:
            name = self.inject.pop(n)
            self.fired.append([n, name])
            self.where.append('%s:%s' % (os.path.basename(frame.f_code.co_filename), frame.f_code.co_name))
            raise EXC[name]('injected')

    def local(self, frame, ev, arg):
        if ev == 'line':
            if not self.opcodes:
                self.event(frame)
        elif ev == 'opcode':
            self.event(frame)
        return self.local

    def glob(self, frame, ev, arg):
        if _ours(frame.f_code):
            if self.opcodes:
                frame.f_trace_opcodes = True
            return self.local
        return None

    def run(self, fn, *a):
        sys.settrace(self.glob)
        try:
            return fn(*a)
        finally:
            sys.settrace(None)


    def some_events(self):
        """Per line of code reached, some of its events."""
        return [v[1:] for k, v in sorted(self.sites.items())]


def pick_event(rng, sites, n):
    """An event: any of them, or any line and then one of its events."""
    if sites and rng.random() < 0.6:
        return rng.choice(rng.choice(sites))
    return rng.randrange(max(1, n))


class Scheduler:
    """n simulated threads, one running at a time.  plan: sorted list of
    [event, thread]: before the global event `event` is executed, `thread` gets
    the baton (if it can run)."""

    def __init__(self, fns, plan, opcodes=False, inject=None, budget=2000000, every=None, period=0):
        self.fns = fns
        self.plan = {int(e): int(t) for e, t in plan}
        self.opcodes = opcodes
        self.inject = {(int(t), int(k)): name for t, k, name in (inject or [])}
        self.n = 0
        self.per = [0] * len(fns)
        self.results = [None] * len(fns)
        self.done = [False] * len(fns)
        self.blocked = [None] * len(fns)
        self.batons = [_real_lock() for _ in fns]
        for b in self.batons:
            b.acquire()
        self.main = _real_lock()
        self.main.acquire()
        self.cur = -1
        self.switches = 0
        self.trace = []         # (event, from, to)
        self.abort = None
        self.budget = budget
        self.every, self.period = every, period
        self.inner = 0

    # -- baton
    def give(self, me, to):
        self.switches += 1
        if len(self.trace) < 5000:
            self.trace.append((self.n, me, to))
        self.cur = to
        self.batons[to].release()
        self.batons[me].acquire()
        if self.abort:
            raise SimAbort()

    def runnable(self, t):
        if self.done[t]:
            return False
        b = self.blocked[t]
        return b is None or b.free_for(t)

    def event(self, frame):
        me = self.cur
        if self.inner:
            return
        n = self.n
        self.n = n + 1
        self.per[me] += 1
        if n > self.budget:
            raise StepBudget()
        if self.period and n % self.period == 0:
            self.inner = 1
            try:
                self.every()
            finally:
                self.inner = 0
        name = self.inject.pop((me, self.per[me]), None)
        if name:
            raise EXC[name]('injected')
        to = self.plan.get(n)
        if to is not None and to != me and to < len(self.fns) and self.runnable(to):
            self.give(me, to)

    def wait_for(self, lock):
        """Called by the running thread when a simulated lock is taken."""
        me = self.cur
        while not lock.free_for(me):
            self.blocked[me] = lock
            for k in range(1, len(self.fns) + 1):
                t = (me + k) % len(self.fns)
                if t != me and self.runnable(t):
                    break
            else:
                self.abort = 'deadlock'
                raise SimAbort()
            self.give(me, t)
        self.blocked[me] = None

    def local(self, frame, ev, arg):
        if ev == ('opcode' if self.opcodes else 'line'):
            self.event(frame)
        return self.local

    def glob(self, frame, ev, arg):
        if _ours(frame.f_code):
            if self.opcodes:
                frame.f_trace_opcodes = True
            return self.local
        return None

    def body(self, k):
        disk.poison()
        self.batons[k].acquire()
        if not self.abort:
            sys.settrace(self.glob)
            try:
                self.results[k] = self.fns[k]()
            except SimAbort:
                pass
            except BaseException as e:
                self.abort = self.abort or 'a simulated thread ended with %r' % e
            finally:
                sys.settrace(None)
        self.done[k] = True
        # hand over to the next one that can run
        for t in range(len(self.fns)):
            if self.runnable(t) or (self.abort and not self.done[t]):
                self.cur = t
                self.batons[t].release()
                return
        if not all(self.done):
            self.abort = 'deadlock'
            for t in range(len(self.fns)):
                if not self.done[t]:
                    self.cur = t
                    self.batons[t].release()
                    return
        self.main.release()

    def run(self):
        global _active
        _active = self
        ths = [threading.Thread(target=self.body, args=(k,), daemon=True) for k in range(len(self.fns))]
        for t in ths:
            t.start()
        first = self.plan.get(-1, 0)
        self.cur = first if first < len(self.fns) else 0
        self.batons[self.cur].release()
        self.main.acquire()
        for t in ths:
            t.join()
        _active = None
        return self.results


_active = None


class SimLock:
    """Stands in for threading.Lock and RLock: never blocks the process, asks
    the scheduler instead."""
    reentrant = False

    def __init__(self):
        self.owner = None
        self.depth = 0
        self.real = _real_rlock() if self.reentrant else _real_lock()

    def who(self):
        return _active.cur if _active is not None else -1

    def free_for(self, t):
        return self.owner is None or (self.reentrant and self.owner == t)

    def acquire(self, blocking=True, timeout=-1):
        if _active is None or threading.current_thread() is threading.main_thread():
            r = self.real.acquire(blocking, timeout)
            if r:
                self.owner, self.depth = -1, self.depth + 1
            return r
        me = self.who()
        if not self.free_for(me):
            if not blocking:
                return False
            _active.wait_for(self)
        self.owner, self.depth = me, self.depth + 1
        return True

    def release(self):
        if self.owner is None:
            raise RuntimeError('release unlocked lock')
        was = self.owner
        self.depth -= 1
        if not self.depth:
            self.owner = None
        if was == -1:
            self.real.release()

    def locked(self):
        return self.owner is not None

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()


class SimRLock(SimLock):
    reentrant = True


class _LockFactory:
    """threading.Lock as seen by the package: simulated for callers in the
    package, real for everybody else."""

    def __init__(self, sim, real):
        self.sim, self.real = sim, real

    def __call__(self, *a, **k):
        f = sys._getframe(1)
        if _ours(f.f_code):
            return self.sim()
        return self.real(*a, **k)


def patch_locks():
    threading.Lock = _LockFactory(SimLock, _real_lock)
    threading.RLock = _LockFactory(SimRLock, _real_rlock)
