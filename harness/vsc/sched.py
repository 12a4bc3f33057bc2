"""A scheduler that runs real threads one at a time.

Every executed line of library code is a point at which the running thread can
be preempted, and so are every call in it (if call_points is set) and every
attempt to take a lock that is held.  A schedule
is determined by its plan; the same plan always gives the same execution.  The
locks of the library are replaced by locks of this module (threading.Lock and
threading.RLock are replaced before the library is imported), so a deadlock is
found as soon as no thread can go on.
"""

import gc
import os
import sys
import threading
import types
from _thread import allocate_lock, get_ident, start_new_thread

REPO = os.environ.get("VSC_REPO", "/repo")
LIB = os.path.join(REPO, "synced_collections") + os.sep
TOOL = 3
HANG = 20.0  # seconds of wall clock after which an execution counts as hanging


class Abort(BaseException):
    """Unwinds a thread after a deadlock."""


class LockHeld(RuntimeError):
    """A thread outside the scheduler would wait forever."""


_now = None  # the scheduler that is running
_tokens = {}  # ident -> token of the controlled thread


def _me():
    ident = get_ident()
    return _tokens.get(ident, ident)


class SLock:
    """A lock (not reentrant)."""

    reentrant = False

    def __init__(self):
        self.owner, self.count = None, 0

    def acquire(self, blocking=True, timeout=-1):
        me = _me()
        if _now is not None:
            _now.acquired.append((_now.n, _now.cur))
        while self.owner is not None and not (self.reentrant and self.owner == me):
            if not blocking or timeout == 0:
                return False
            if _now is None or get_ident() not in _tokens:
                raise LockHeld("the lock is held by a thread that does not release it")
            if not _now.block(self, timeout):
                return False
        self.owner = me
        self.count += 1
        return True

    def release(self):
        if self.owner is None or (self.reentrant and self.owner != _me()):
            raise RuntimeError("cannot release un-acquired lock")
        self.count -= 1
        if self.count == 0:
            self.owner = None

    def __enter__(self):
        return self.acquire()

    def __exit__(self, *exc):
        self.release()

    def locked(self):
        return self.owner is not None

    def _is_owned(self):
        return self.owner == _me()

    def _release_save(self):
        state = self.owner, self.count
        self.owner, self.count = None, 0
        return state

    def _acquire_restore(self, state):
        self.acquire()
        self.owner, self.count = state


class SRLock(SLock):
    reentrant = True


def patch():
    """Replace the locks; to be called before the library is imported."""
    threading.Lock = SLock
    threading.RLock = SRLock
    # what the waiting threads of conditions (events, semaphores) wait for
    threading._allocate_lock = lambda: (
        SLock() if get_ident() in _tokens else allocate_lock()
    )


# ------------------------------------------------------------------ the points


def _codes():
    """All code objects of the library (equal ones are different after a reload)."""
    seen, todo = {}, []
    for f in gc.get_objects():
        if isinstance(f, types.FunctionType) and f.__code__.co_filename.startswith(LIB):
            todo.append(f.__code__)
    while todo:
        c = todo.pop()
        if id(c) not in seen:
            seen[id(c)] = c
            todo += [x for x in c.co_consts if isinstance(x, types.CodeType)]
    return seen.values()


def _line(code, line):
    s = _now
    if s is not None and get_ident() in _tokens:
        s.n += 1
        if s.log is not None:
            s.log.append((s.cur, code, line))
        if s.n == s.at:
            s.preempt()


call_points = False  # whether threads can be preempted before every call, too
fault = None  # called with every function that library code is about to call


def _call(code, offset, fn, arg0):
    if fault is not None and get_ident() in _tokens:
        fault(fn)
    if call_points:
        _line(code, -1 - offset)


def arm(calls=False):
    """Observe the lines of the library (after it has been imported)."""
    mon = sys.monitoring
    calls = calls or call_points
    if mon.get_tool(TOOL) is None:
        mon.use_tool_id(TOOL, "vsc")
    mon.register_callback(TOOL, mon.events.LINE, _line)
    mon.register_callback(TOOL, mon.events.CALL, _call if calls else None)
    for c in _codes():
        mon.set_local_events(TOOL, c, mon.events.LINE | (mon.events.CALL if calls else 0))


# --------------------------------------------------------------- the scheduler


class Sched:
    """Runs functions as threads following a plan.

    order is a permutation of the threads: whenever a choice has to be made
    the first thread in that order that can run is taken.  preempt is a list of
    steps (counted over all threads) at which the running thread is preempted;
    there it is put at the end of the order.
    """

    def __init__(self, fns, order, preempts=(), log=None):
        self.log = log
        self.fns, self.order = fns, list(order)
        self.preempts = sorted(preempts, reverse=True)
        self.at = self.preempts.pop() if self.preempts else -1
        self.n = 0
        self.state = ["ready"] * len(fns)  # ready, done, or the lock waited for
        self.sems = [allocate_lock() for _ in fns]
        for s in self.sems:
            s.acquire()
        self.done = allocate_lock()
        self.done.acquire()
        self.cur = None
        self.blocked = 0  # how often a thread had to wait
        self.acquired = []  # (step, thread) of every attempt to take a lock
        self.deadlock = self.hang = False
        self.errors = []
        self.idents = {}

    def run(self):
        global _now
        _now = self
        try:
            for t in range(len(self.fns)):
                start_new_thread(self._main, (t,))
            self.next()
            if not self.done.acquire(timeout=HANG):
                self.hang = True
        finally:
            _now = None
            if not self.hang:
                for i in list(_tokens):
                    del _tokens[i]
        return self

    def _main(self, t):
        self.sems[t].acquire()
        ident = get_ident()
        _tokens[ident] = (id(self), t)
        self.idents[ident] = t
        try:
            self.fns[t]()
        except Abort:
            pass
        except BaseException as err:  # noqa: BLE001
            self.errors.append(err)
        _tokens.pop(ident, None)
        self.state[t] = "done"
        self.next()

    def runnable(self, t):
        s = self.state[t]
        return s == "ready" or (s != "done" and (s.owner is None or self.deadlock))

    def next(self):
        """Let the next thread run; the caller stops running."""
        for t in self.order:
            if self.runnable(t):
                self.cur = t
                self.sems[t].release()
                return
        if all(s == "done" for s in self.state):
            self.done.release()
            return
        self.deadlock = True
        self.next()

    def switch(self, t):
        """Called by thread t: let somebody run, wait for my turn."""
        self.next()
        self.sems[t].acquire()

    def preempt(self):
        self.at = self.preempts.pop() if self.preempts else -1
        t = self.cur
        self.order.remove(t)
        self.order.append(t)
        self.switch(t)

    def block(self, lock, timeout):
        t = self.cur
        if self.deadlock:
            raise Abort
        self.blocked += 1
        self.state[t] = lock
        self.switch(t)
        self.state[t] = "ready"
        if self.deadlock:
            raise Abort
        return True


def point():
    """A preemption point outside the library."""
    _line(None, 0)
