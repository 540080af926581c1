"""Seeded scheduling of real threads.

Threads run one at a time; the one that holds the baton runs until a scheduling
point: a new line of mt_metadata code, a disk operation, or a library lock.
The plan's pre-emption list [[point number, task], ...] decides every switch;
nothing else does.  Locks created by mt_metadata modules are replaced by ones
the scheduler knows, so a parked lock holder cannot freeze the process.
"""
import _thread
import os
import sys
import threading
import time

TOOL = 4
_current = None          # the scheduler of this process, if any
_real_lock = threading.Lock
_real_rlock = threading.RLock


class SchedDeadlock(Exception):
    pass


class SimLock:
    """Lock/RLock of the library under simulation."""

    def __init__(self, reentrant):
        self._reentrant = reentrant
        self._real = _real_rlock() if reentrant else _real_lock()
        self._owner = None
        self._depth = 0

    def acquire(self, blocking=True, timeout=-1):
        s = _current
        me = s.task_of_thread() if s else None
        if me is None:
            return self._real.acquire(blocking, timeout)
        s.point("lock")
        while self._owner is not None and not (self._reentrant and self._owner == me):
            if not blocking:
                return False
            s.block(me, self)
        self._owner = me
        self._depth += 1
        return True

    def release(self):
        s = _current
        me = s.task_of_thread() if s else None
        if me is None:
            return self._real.release()
        if self._owner != me:
            raise RuntimeError("cannot release un-acquired lock")
        self._depth -= 1
        if self._depth == 0:
            self._owner = None
            s.unblock(self)
        s.point("unlock")

    def locked(self):
        return self._owner is not None or (not self._reentrant and self._real.locked())

    def _is_owned(self):
        s = _current
        me = s.task_of_thread() if s else None
        return self._owner == me if me is not None else self._real._is_owned()

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()


def _lib_caller(depth=2):
    return sys._getframe(depth).f_globals.get("__name__", "").startswith("mt_metadata")


def _lock_factory(*a, **k):
    return SimLock(False) if _lib_caller() else _real_lock(*a, **k)


def _rlock_factory(*a, **k):
    return SimLock(True) if _lib_caller() else _real_rlock(*a, **k)


def install_locks():
    """Before mt_metadata is imported."""
    threading.Lock = _lock_factory
    threading.RLock = _rlock_factory


class Scheduler:
    def __init__(self, preempt=(), libdir=None, watchdog=120, max_points=20_000_000):
        self.preempt = sorted((int(a), int(b)) for a, b in preempt)
        self.pos = 0
        self.next = self.preempt[0][0] if self.preempt else None
        self.n = 0
        self.tasks = []
        self.gates = []
        self.done = []
        self.blocked = {}
        self.cur = None
        self.ident = {}
        self.switches = 0
        self.trace = []
        self.results = []
        self.libdir = libdir
        self.watchdog = watchdog
        self.max_points = max_points
        self.failed = None
        self.per_task = []
        self.kinds = {}

    # -- called from tasks
    def task_of_thread(self):
        return self.ident.get(_thread.get_ident())

    def io_point(self, op):
        if self.ident.get(_thread.get_ident()) is not None:
            self.point("io")

    def point(self, kind="line"):
        self.n += 1
        if kind != "line":
            self.kinds[kind] = self.kinds.get(kind, 0) + 1
        if self.next is not None and self.n >= self.next:
            tgt = self.preempt[self.pos][1]
            self.pos += 1
            self.next = self.preempt[self.pos][0] if self.pos < len(self.preempt) else None
            run = self.runnable()
            if run:
                t = run[tgt % len(run)]
                if t != self.cur:
                    self.switch(t)
        if self.n > self.max_points and self.failed is None:
            self.failed = "too many scheduling points"

    def runnable(self):
        return [i for i in range(len(self.tasks)) if not self.done[i] and i not in self.blocked]

    def switch(self, t):
        me = self.cur
        self.switches += 1
        if len(self.trace) < 4000:
            self.trace.append((self.n, me, t))
        self.cur = t
        self.gates[t].release()
        self.gates[me].acquire()

    def block(self, me, lock):
        self.blocked[me] = lock
        run = self.runnable()
        if not run:
            self.failed = "deadlock"
            raise SchedDeadlock("all tasks blocked")
        self.switches += 1
        t = run[0]
        self.trace.append((self.n, me, t))
        self.cur = t
        self.gates[t].release()
        self.gates[me].acquire()
        if self.failed == "deadlock":
            raise SchedDeadlock("all tasks blocked")

    def unblock(self, lock):
        for t in [t for t, l in self.blocked.items() if l is lock]:
            del self.blocked[t]

    # -- driving
    def _body(self, i, fn):
        self.gates[i].acquire()
        self.ident[_thread.get_ident()] = i
        n0 = self.n
        try:
            self.results[i] = ("ok", fn())
        except SchedDeadlock:
            self.results[i] = ("deadlock", None)
        except BaseException as e:
            self.results[i] = ("raise", type(e).__name__, str(e)[:300])
        self.ident.pop(_thread.get_ident(), None)
        self.done[i] = True
        self.per_task.append(self.n - n0)
        run = self.runnable()
        if run:
            self.cur = run[0]
            self.trace.append((self.n, i, run[0]))
            self.gates[run[0]].release()
        elif not all(self.done):
            self.failed = "deadlock"
            for t in list(self.blocked):
                self.gates[t].release()
            self.finished.release()
        else:
            self.finished.release()

    def run(self, fns, first=0):
        global _current
        self.tasks = list(fns)
        k = len(fns)
        self.done = [False] * k
        self.results = [None] * k
        self.gates = []
        for _ in range(k):
            g = _real_lock()
            g.acquire()
            self.gates.append(g)
        self.finished = _real_lock()
        self.finished.acquire()
        ths = [threading.Thread(target=self._body, args=(i, f), daemon=True) for i, f in enumerate(fns)]
        _current = self
        for t in ths:
            t.start()
        trace_lines(self.libdir, self._line)
        try:
            self.cur = first % k
            self.gates[self.cur].release()
            ok = self.finished.acquire(timeout=self.watchdog)
        finally:
            untrace()
            _current = None
        if not ok:
            raise TimeoutError(f"scheduler watchdog: current {self.cur}, points {self.n}, failed {self.failed}")
        for t in ths:
            t.join(5)
        return self.results

    def _line(self):
        if self.ident.get(_thread.get_ident()) == self.cur and self.cur is not None:
            self.point("line")


def trace_lines(libdir, fn):
    mon = sys.monitoring
    mon.use_tool_id(TOOL, "sim")
    prefix = libdir.rstrip("/") + "/"

    def on_line(code, line):
        if not code.co_filename.startswith(prefix):
            return mon.DISABLE
        if code.co_name == "<module>":
            return mon.DISABLE
        fn()

    mon.register_callback(TOOL, mon.events.LINE, on_line)
    mon.set_events(TOOL, mon.events.LINE)


def untrace():
    mon = sys.monitoring
    mon.set_events(TOOL, 0)
    mon.register_callback(TOOL, mon.events.LINE, None)
    mon.free_tool_id(TOOL)
    mon.restart_events()


class StepBudget:
    """Counts lines of library code; raises SimHang past the budget."""

    def __init__(self, libdir, budget):
        self.libdir, self.budget, self.n = libdir, budget, 0

    def _tick(self):
        self.n += 1
        if self.n > self.budget:
            from .world import SimHang
            raise SimHang(f"more than {self.budget} steps")

    def __enter__(self):
        trace_lines(self.libdir, self._tick)
        return self

    def __exit__(self, *a):
        untrace()


class InterruptAt:
    """Raises an exception at the n-th line of library code (once)."""

    def __init__(self, libdir, n, exc=KeyboardInterrupt):
        self.libdir, self.n, self.exc, self.fired, self.lines = libdir, n, exc, False, 0

    def _tick(self):
        self.lines += 1
        if self.lines == self.n and not self.fired:
            self.fired = True
            raise self.exc()

    def __enter__(self):
        trace_lines(self.libdir, self._tick)
        return self

    def __exit__(self, *a):
        untrace()
