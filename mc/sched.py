"""Controlled scheduler for real Python threads: every line of objutils code is a scheduling point.

Threads run one at a time; at each `line` event in a traced file the running thread asks the scheduler who goes on.
`explore` enumerates all schedules with at most `bound` preemptions (a switch away from a thread which could go on),
depth first with stateless replay, and returns the number of schedules. Locks created by the code under test have to be
replaced by `SchedLock` (see `patched_locks`), so a blocked thread is visible to the scheduler; no enabled thread is a
deadlock.
"""

import os
import sys
import threading

from mc.core import REPO, STATS, HarnessError, Violation, visit

PREFIX = os.path.join(os.path.realpath(REPO), "objutils") + os.sep


class Abort(BaseException):
    pass


class SchedLock:
    """Non recursive lock known to the scheduler."""

    current = None  # the running Execution

    def __init__(self):
        self.owner = None

    def acquire(self, blocking=True, timeout=-1):
        ex = SchedLock.current
        if ex is None or ex.me() is None:
            if self.owner is not None:
                raise HarnessError("lock held outside of an execution")
            self.owner = "main"
            return True
        ex.point(waiting=None)
        while self.owner is not None:
            if not blocking or timeout >= 0:
                return False
            ex.point(waiting=self)
        self.owner = ex.me()
        return True

    def release(self):
        if self.owner is None:
            raise RuntimeError("release unlocked lock")
        self.owner = None
        ex = SchedLock.current
        if ex is not None and ex.me() is not None:
            ex.point(waiting=None)

    def locked(self):
        return self.owner is not None

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()


class SchedRLock(SchedLock):
    def __init__(self):
        super().__init__()
        self.count = 0

    def acquire(self, blocking=True, timeout=-1):
        ex = SchedLock.current
        me = ex.me() if ex is not None and ex.me() is not None else "main"
        if self.owner == me and self.count:
            self.count += 1
            return True
        r = super().acquire(blocking, timeout)
        if r:
            self.count = 1
        return r

    def release(self):
        self.count -= 1
        if not self.count:
            super().release()

    __enter__ = acquire


_LOCK, _RLOCK = threading.Lock, threading.RLock
_LOCK_T, _RLOCK_T = type(threading.Lock()), type(threading.RLock())


def _from_library():
    return sys._getframe(2).f_code.co_filename.startswith(PREFIX)


def patch_locks():
    """Make the locks of the library visible to the scheduler (module and class attributes, and those created later)."""

    def convert(owner, name, v):
        if isinstance(v, _LOCK_T):
            setattr(owner, name, SchedLock())
        elif isinstance(v, _RLOCK_T):
            setattr(owner, name, SchedRLock())

    for mname, mod in list(sys.modules.items()):
        if mname != "objutils" and not mname.startswith("objutils."):
            continue
        for name, v in list(vars(mod).items()):
            convert(mod, name, v)
            if isinstance(v, type) and v.__module__.startswith("objutils"):
                for k, x in list(vars(v).items()):
                    convert(v, k, x)
            elif type(v).__module__.startswith("objutils") and hasattr(v, "__dict__"):
                for k, x in list(vars(v).items()):
                    convert(v, k, x)
    threading.Lock = lambda: SchedLock() if _from_library() else _LOCK()
    threading.RLock = lambda: SchedRLock() if _from_library() else _RLOCK()


class Execution:
    def __init__(self, bodies, prefix, granularity="line", occurrences=None):
        self.occurrences = occurrences
        self.counts = {}
        self.bodies = bodies
        self.prefix = prefix
        self.choices = []  # index into the enabled list at each point with more than one enabled thread
        self.points = []  # (number enabled, running thread still enabled)
        self.results = [None] * len(bodies)
        self.sems = [threading.Semaphore(0) for _ in bodies]
        self.done = [False] * len(bodies)
        self.waiting = [None] * len(bodies)
        self.finished = threading.Semaphore(0)
        self.ids = {}
        self.abort = None
        self.steps = 0
        self.granularity = granularity

    def me(self):
        return self.ids.get(threading.get_ident())

    def enabled(self, running):
        out = []
        order = ([running] if running is not None else []) + [i for i in range(len(self.bodies)) if i != running]
        for i in order:
            if self.done[i]:
                continue
            w = self.waiting[i]
            if w is not None and w.owner is not None:
                continue
            out.append(i)
        return out

    def choose(self, running):
        en = self.enabled(running)
        if not en:
            return None
        if len(en) == 1:
            return en[0]
        k = len(self.choices)
        c = self.prefix[k] if k < len(self.prefix) else 0
        if c >= len(en):
            self.abort = HarnessError("schedule diverged during replay")
            return None
        self.choices.append(c)
        self.points.append((len(en), bool(running is not None and en[0] == running)))
        return en[c]

    def point(self, waiting=None):
        me = self.me()
        self.steps += 1
        if self.steps > 200000:
            self.abort = Violation("schedule does not terminate (livelock)")
        if self.abort is not None:
            raise Abort()
        self.waiting[me] = waiting
        nxt = self.choose(me)
        if nxt is None:
            if self.abort is None:
                self.abort = Violation("deadlock")
            self.wake_all()
            raise Abort()
        if nxt != me:
            self.sems[nxt].release()
            self.sems[me].acquire()
            if self.abort is not None:
                raise Abort()
        self.waiting[me] = None

    def wake_all(self):
        for s in self.sems:
            s.release()

    def trace(self, frame, event, arg):
        if not frame.f_code.co_filename.startswith(PREFIX):
            return None
        if self.granularity == "opcode":
            frame.f_trace_opcodes = True
            frame.f_trace_lines = False
        return self.local

    def local(self, frame, event, arg):
        if event == "line" or event == "opcode":
            if self.occurrences is not None:
                k = (threading.get_ident(), frame.f_code, frame.f_lineno if event == "line" else frame.f_lasti)
                c = self.counts[k] = self.counts.get(k, 0) + 1
                if c > self.occurrences:
                    return self.local
            self.point()
        return self.local

    def body(self, i):
        self.ids[threading.get_ident()] = i
        self.sems[i].acquire()
        try:
            if self.abort is None:
                sys.settrace(self.trace)
                try:
                    self.results[i] = ("ok", self.bodies[i]())
                finally:
                    sys.settrace(None)
        except Abort:
            pass
        except Exception as e:
            self.results[i] = ("raised", type(e).__name__, str(e))
        except BaseException as e:
            self.results[i] = ("raised", type(e).__name__, str(e))
        self.done[i] = True
        if self.abort is None:
            nxt = self.choose(None)
            if nxt is not None:
                self.sems[nxt].release()
            elif not all(self.done) and self.abort is None:
                self.abort = Violation("deadlock")
                self.wake_all()
            elif self.abort is not None:
                self.wake_all()
        self.finished.release()

    def run(self):
        threads = [threading.Thread(target=self.body, args=(i,), daemon=True) for i in range(len(self.bodies))]
        SchedLock.current = self
        try:
            for t in threads:
                t.start()
            while len(self.ids) < len(threads):  # all threads have registered before the first one runs
                pass
            first = self.choose(None)
            self.sems[first].release()
            for _ in threads:
                self.finished.acquire()
            for t in threads:
                t.join()
        finally:
            SchedLock.current = None
        if self.abort is not None:
            raise self.abort
        return self.results


def explore(make, judge, bound, granularity="line", max_schedules=None, occurrences=None):
    """make() -> list of thread bodies (fresh state); judge(results) raises Violation. Returns number of schedules.

    occurrences: only the first n executions of a source line by a thread are scheduling points (None: all of them).
    """
    count = 0
    stack = [[]]
    outcomes = set()
    while stack:
        prefix = stack.pop()
        ex = Execution(make(), prefix, granularity, occurrences)
        try:
            results = ex.run()
            judge(results)
        except Violation as e:
            raise Violation(f"schedule {ex.choices}: {e}") from e
        outcomes.add(repr(results))
        visit((getattr(judge, "__name__", ""), ex.choices), ex.steps - len(prefix) if prefix else ex.steps)
        count += 1
        if max_schedules and count > max_schedules:
            raise HarnessError("schedule cap hit")
        if ex.choices[: len(prefix)] != prefix:
            raise HarnessError("replay diverged")
        cost = 0  # preemptions before point i
        for i, ((n, running), c) in enumerate(zip(ex.points, ex.choices)):
            if i >= len(prefix) and cost + running <= bound:
                for alt in range(1, n):
                    stack.append(ex.choices[:i] + [alt])
            if running and c:
                cost += 1
    STATS.schedules += count
    return count, len(outcomes)
