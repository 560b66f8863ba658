"""Stateless exploration of thread interleavings of real Python code (preemption-bounded, CHESS style).

Scheduling points: every source line executed inside the traced package, every operation on a lock created after `install()`,
and the beginning / inside / end of every call into a ctypes library loaded after `install()`.  Exactly one controlled thread runs at
a time.  Two controlled threads inside native calls on the same handle (first argument) at the same time are reported as a race.
"""
import _thread
import ctypes
import sys
import threading
import time

_real_lock = _thread.allocate_lock
_real_rlock = threading.RLock
_CDLL = ctypes.CDLL
current = {}          # ident -> (Execution, tid)
LIMIT = 20000


def controlled():
    return current.get(_thread.get_ident())


class CoopLock:
    def __init__(self, *a, **k):
        self._r = self._make()

    _make = staticmethod(_real_lock)

    def acquire(self, blocking=True, timeout=-1):
        c = controlled()
        if c is None:
            return self._r.acquire(blocking, timeout)
        ex, tid = c
        ex.point(tid)
        if not blocking:
            return self._r.acquire(False)
        while not self._r.acquire(False):
            ex.block(tid, self)
        return True

    def release(self):
        self._r.release()
        c = controlled()
        if c is not None:
            ex, tid = c
            ex.unblock(self)
            ex.point(tid)

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()

    def locked(self):
        return self._r.locked()


class CoopRLock(CoopLock):
    _make = staticmethod(_real_rlock)

    def _is_owned(self):
        return self._r._is_owned()

    def _release_save(self):
        s = self._r._release_save()
        c = controlled()
        if c is not None:
            c[0].unblock(self)
        return s

    def _acquire_restore(self, s):
        self.acquire()
        self._r.release()
        c = controlled()
        if c is None:
            return self._r._acquire_restore(s)
        while not self._r.acquire(False):
            c[0].block(c[1], self)
        for _ in range(s[0] - 1):
            self._r.acquire(False)


class Native:
    """A function of a ctypes library, observed."""

    def __init__(self, fn, name):
        object.__setattr__(self, "_fn", fn)
        object.__setattr__(self, "_name", name)

    def __getattr__(self, k):
        return getattr(self._fn, k)

    def __setattr__(self, k, v):
        setattr(self._fn, k, v)

    def __call__(self, *args):
        c = controlled()
        if c is None:
            return self._fn(*args)
        ex, tid = c
        key = None
        try:
            a = args[0]
            key = ctypes.addressof(a._obj) if hasattr(a, "_obj") else ctypes.cast(a, ctypes.c_void_p).value
        except Exception:
            pass
        ex.point(tid)
        if key is not None:
            if ex.native.get(key):
                ex.races.append(f"{self._name} is called on a handle that another thread is using inside a call")
            ex.native.setdefault(key, []).append(tid)
        ex.point(tid)
        try:
            return self._fn(*args)
        finally:
            if key is not None:
                ex.native[key].remove(tid)
            ex.point(tid)


class CDLL(_CDLL):
    def __getattr__(self, name):
        if name.startswith("__") and name.endswith("__"):
            raise AttributeError(name)
        fn = Native(self.__getitem__(name), name)
        setattr(self, name, fn)
        return fn


def install():
    threading.Lock = threading._allocate_lock = CoopLock
    threading.RLock = CoopRLock
    ctypes.CDLL = CDLL


class Divergence(Exception):
    pass


class Execution:
    """One execution of the thread bodies under a schedule: `prefix` fixes the first choices, later ones are 0."""

    def __init__(self, bodies, prefix, package, names=None):
        self.bodies, self.prefix, self.package = bodies, prefix, package
        n = len(bodies)
        self.state = ["ready"] * n
        self.waits = [None] * n
        self.sem = [_real_lock() for _ in range(n)]
        for s in self.sem:
            s.acquire()
        self.end = _real_lock()
        self.end.acquire()
        self.running = None
        self.points, self.choices = [], []
        self.steps, self.native, self.races = 0, {}, []
        self.results = [None] * n
        self.deadlock = self.diverged = False
        self.mutex = _real_lock()

    # -- choices ------------------------------------------------------------------
    def enabled(self, tid):
        out = [t for t, s in enumerate(self.state) if s == "ready"]
        return ([tid] if tid in out else []) + [t for t in out if t != tid]

    def pick(self, tid):
        en = self.enabled(tid)
        if not en:
            return None
        if len(en) == 1:
            return en[0]
        i = len(self.points)
        c = self.prefix[i] if i < len(self.prefix) else 0
        if c >= len(en):
            self.diverged = True
            c = 0
        self.points.append((len(en), tid is not None and en[0] == tid))
        self.choices.append(c)
        return en[c]

    def hand(self, tid):
        """Give the token to the next thread; returns when it comes back to tid."""
        t = self.pick(tid)
        if t == tid:
            return
        if t is None:
            if all(s == "done" for s in self.state):
                self.end.release()
            elif not any(s == "ext" for s in self.state):
                self.deadlock = True
                self.end.release()
            else:
                self.running = None
            if self.state[tid] != "done":
                self.sem[tid].acquire()
            return
        self.running = t
        self.sem[t].release()
        if self.state[tid] != "done":
            self.sem[tid].acquire()

    def point(self, tid):
        self.steps += 1
        if self.steps > LIMIT:
            self.diverged = True
            return
        with self.mutex:
            late = self.running != tid
            if late:  # it was blocked outside of our control, and somebody else runs now
                self.state[tid] = "ready"
                if self.running is None:
                    self.running, late = tid, False
        if late:
            self.sem[tid].acquire()
            return
        self.hand(tid)

    def block(self, tid, lock):
        self.state[tid], self.waits[tid] = "blocked", lock
        self.hand(tid)

    def unblock(self, lock):
        for t, w in enumerate(self.waits):
            if w is lock and self.state[t] == "blocked":
                self.state[t], self.waits[t] = "ready", None

    # -- threads ------------------------------------------------------------------
    def trace(self, frame, event, arg):
        if self.package not in frame.f_code.co_filename:
            return None
        return self.local

    def local(self, frame, event, arg):
        if event == "line":
            c = controlled()
            if c is not None and c[0] is self:
                self.point(c[1])
        return self.local

    def thread(self, tid):
        self.sem[tid].acquire()
        current[_thread.get_ident()] = (self, tid)
        sys.settrace(self.trace)
        try:
            self.results[tid] = self.bodies[tid]()
        except BaseException as e:  # bodies catch what they expect
            self.results[tid] = e
        finally:
            sys.settrace(None)
            current.pop(_thread.get_ident(), None)
            with self.mutex:
                self.state[tid] = "done"
                mine = self.running == tid or self.running is None
            if mine:
                self.hand(tid)

    def run(self):
        for t in range(len(self.bodies)):
            _thread.start_new_thread(self.thread, (t,))
        first = self.pick(None)
        self.running = first
        self.sem[first].release()
        idle, last = 0, -1
        while not self.end.acquire(True, 2.0):
            if self.steps == last:  # the running thread waits for something that we do not control
                idle += 1
                with self.mutex:
                    r = self.running
                    if r is not None and self.state[r] == "ready":
                        self.state[r] = "ext"
                    nxt = self.enabled(None)
                    self.running = nxt[0] if nxt else None
                if nxt:
                    self.sem[nxt[0]].release()
                elif idle > 8:
                    self.deadlock = True
                    break
            else:
                idle, last = 0, self.steps
        return self


def explore(make, bound, package, judge, limit=10 ** 9):
    """All executions with at most `bound` preemptions. make() -> bodies (fresh world); judge(execution, bodies)."""
    stack, count = [[]], 0
    while stack and count < limit:
        prefix = stack.pop()
        bodies = make()
        ex = Execution(bodies, prefix, package).run()
        count += 1
        if ex.choices[:len(prefix)] != prefix:
            ex.diverged = True
        judge(ex, count)
        if ex.diverged:
            continue
        cost = [0]
        for (n, runnable), c in zip(ex.points, ex.choices):
            cost.append(cost[-1] + (1 if runnable and c else 0))
        for i in range(len(ex.points) - 1, len(prefix) - 1, -1):
            n, runnable = ex.points[i]
            if cost[i] + (1 if runnable else 0) > bound:
                continue
            for alt in range(n - 1, 0, -1):
                stack.append(ex.choices[:i] + [alt])
    return count
