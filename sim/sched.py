"""Deterministic thread scheduler.

Simulated threads are real threads that are parked and released one at a time: exactly one of them holds the baton.
A switch can happen at every executed line (optionally every bytecode) of the code under test or of the cache library,
at every call of a seam, and at every lock operation.  Which thread runs next is decided by the plan alone."""
import hashlib
import os
import random
import sys
import threading
import _thread

_real_Lock = _thread.allocate_lock
_real_RLock = threading.RLock
_current = None          # the active Scheduler of this process or None
_tls = threading.local()


class SimAbort(BaseException):
    """Raised inside simulated threads to unwind them when a run is cut short."""


class Deadlock(Exception):
    pass


class StepLimit(Exception):
    pass


def current():
    return _current


def me():
    """Index of the calling simulated thread or None."""
    if _current is None:
        return None
    return getattr(_tls, "tid", None)


class SimLock:
    """Replacement for threading.Lock / RLock. Outside simulated threads it is an ordinary lock."""

    def __init__(self, reentrant):
        self._re = reentrant
        self._real = _real_RLock() if reentrant else _real_Lock()
        self._owner = None
        self._count = 0

    def acquire(self, blocking=True, timeout=-1):
        s = _current
        if s is None or me() is None or s.finished:
            return self._real.acquire(blocking, timeout)
        s.point("lock")
        while True:
            if self._owner is None or (self._re and self._owner == me()):
                self._owner = me()
                self._count += 1
                return True
            if not blocking or (timeout is not None and timeout >= 0 and s.only_runnable()):
                return False
            s.block(self)

    def release(self):
        s = _current
        if s is None or me() is None or s.finished:
            if self._owner is None:
                return self._real.release()
        if self._owner is None:
            raise RuntimeError("release unlocked lock")
        self._count -= 1
        if self._count == 0:
            self._owner = None
            if s is not None and not s.finished:
                s.wake(self)
                if me() is not None:
                    s.point("unlock")

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()

    def locked(self):
        return self._owner is not None or (self._real.locked() if hasattr(self._real, "locked") else False)

    # protocol used by threading.Condition
    def _is_owned(self):
        if me() is not None:
            return self._owner == me()
        if self._re:
            return self._real._is_owned()
        if self._real.acquire(False):
            self._real.release()
            return False
        return True

    def _release_save(self):
        if me() is not None:
            n, self._count = self._count, 1
            self.release()
            return n
        if self._re:
            return self._real._release_save()
        self._real.release()

    def _acquire_restore(self, x):
        if me() is not None:
            self.acquire()
            self._count = x
        elif self._re:
            self._real._acquire_restore(x)
        else:
            self._real.acquire()

    def _at_fork_reinit(self):
        self._real = _real_RLock() if self._re else _real_Lock()


def install():
    """The code under test only sees simulated locks. Library modules imported before keep the real ones."""
    threading.Lock = lambda: SimLock(False)
    threading.RLock = lambda: SimLock(True)


TRACE_PREFIXES = None


def _prefixes():
    global TRACE_PREFIXES
    if TRACE_PREFIXES is None:
        import cachetools
        from . import boot
        TRACE_PREFIXES = (os.path.realpath(boot.SRC) + os.sep, boot.SRC + os.sep, os.path.dirname(cachetools.__file__) + os.sep)
    return TRACE_PREFIXES


class LineFault:
    """Raises an exception at the n-th executed line of the code under test (and of the packages named): an allocation failure or an interruption
    at an arbitrary point. Only outside simulated threads."""

    def __init__(self, n, exc, packages=()):
        self.n = n
        self.exc = exc
        self.prefixes = _prefixes()[:2] + package_dirs(packages)
        self.lines = 0
        self.fired = False

    def _trace(self, frame, event, arg):
        if event == "call":
            return self._trace if frame.f_code.co_filename.startswith(self.prefixes) and frame.f_code.co_name != "<module>" else None
        if event == "line":
            self.lines += 1
            if self.lines > self.n and not self.fired:
                self.fired = True
                exc, self.exc = self.exc, None      # not kept: its traceback would keep the frames and what they hold alive
                raise exc
        return self._trace

    def __enter__(self):
        sys.settrace(self._trace)
        return self

    def __exit__(self, *a):
        sys.settrace(None)


def package_dirs(names):
    out = []
    for n in names:
        m = sys.modules.get(n) or __import__(n)
        out.append(os.path.dirname(m.__file__) + os.sep)
    return tuple(out)


class Scheduler:
    """mode:
       random  switch with probability p at every point
       pct     priorities with d random change points (at most `span` points)
       list    explicit list of [point, thread] switches (replay)
       none    threads run one after another"""

    def __init__(self, cfg, log=None):
        self.cfg = cfg
        self.mode = cfg.get("mode", "random")
        self.rng = random.Random(cfg.get("seed", 0))
        self.p = cfg.get("p", 0.05)
        self.opcode = bool(cfg.get("opcode"))
        self.prefixes = _prefixes() + package_dirs(cfg.get("packages", ()))
        self.limit = cfg.get("limit", 15_000_000)
        self.points = 0
        self.switches = []       # [point, thread] actually taken
        self.tids = []
        self.state = {}          # tid -> runnable | blocked | done
        self.waiting = {}        # tid -> lock
        self.sem = {}
        self.cur = None
        self.finished = False
        self.failure = None
        self.results = {}
        self.log = log
        self.digest = hashlib.sha256()
        if self.mode == "pct":
            d = cfg.get("d", 3)
            span = cfg.get("span", 2000)
            self.changes = sorted(self.rng.randrange(1, span) for _ in range(d))
            self.prio = {}
        if self.mode == "list":
            self.script = {int(a): b for a, b in cfg.get("switches", [])}

    # -- decisions ---------------------------------------------------------------------------------------------
    def runnable(self):
        return [t for t in self.tids if self.state[t] == "run"]

    def only_runnable(self):
        return self.runnable() == [self.cur]

    def choose(self, forced):
        """Pick the thread to continue with at this point; forced: the current thread cannot continue."""
        run = self.runnable()
        if not run:
            return None
        if self.mode == "list":
            t = self.script.get(self.points)
            if t is not None and t in run:
                return t
            return run[0] if forced else self.cur
        if self.mode == "none":
            return run[0] if forced else self.cur
        if self.mode == "pct":
            if self.changes and self.points >= self.changes[0]:
                self.changes.pop(0)
                self.prio[self.cur] = -len(self.changes) - 1 - self.points
            return max(run, key=lambda t: self.prio[t])
        if forced or self.rng.random() < self.p:
            others = [t for t in run if t != self.cur] or run
            return self.rng.choice(others)
        return self.cur

    def point(self, why=""):
        if self.finished or getattr(_tls, "quiet", 0):
            return
        if self.failure is not None:
            raise SimAbort()
        self.points += 1
        if self.points > self.limit:
            self.fail(StepLimit(f"more than {self.limit} steps"))
            raise SimAbort()
        nxt = self.choose(False)
        if nxt is not None and nxt != self.cur:
            self.switch_to(nxt)

    def switch_to(self, nxt):
        mine = self.cur
        self.switches.append([self.points, nxt])
        self.digest.update(b"%d:%d;" % (self.points, nxt))
        self.cur = nxt
        self.sem[nxt].release()
        if self.state[mine] != "done":
            self.sem[mine].acquire()
            if self.failure is not None and not self.finished:
                raise SimAbort()

    def block(self, lock):
        tid = self.cur
        self.state[tid] = "blocked"
        self.waiting[tid] = lock
        self.points += 1
        nxt = self.choose(True)
        if nxt is None:
            self.state[tid] = "run"
            self.fail(Deadlock("all threads wait for locks: " + str(sorted(t for t in self.tids if self.state[t] == "blocked") + [tid])))
            raise SimAbort()
        self.switch_to(nxt)

    def wake(self, lock):
        for t, l in list(self.waiting.items()):
            if l is lock:
                del self.waiting[t]
                self.state[t] = "run"

    def fail(self, exc):
        if self.failure is None:
            self.failure = exc

    # -- threads -----------------------------------------------------------------------------------------------
    def _tracer(self, frame, event, arg):
        if event == "call":
            fn = frame.f_code.co_filename
            if fn.startswith(self.prefixes) and frame.f_code.co_name != "<module>":
                if self.opcode:
                    frame.f_trace_opcodes = True
                    frame.f_trace_lines = False
                return self._local
            return None
        return None

    def _local(self, frame, event, arg):
        if event == "line" or event == "opcode":
            self.point("line")
        return self._local

    def _body(self, tid, fn):
        _tls.tid = tid
        self.sem[tid].acquire()
        try:
            if self.failure is None:
                sys.settrace(self._tracer)
                self.results[tid] = ("ok", fn())
        except SimAbort:
            self.results[tid] = ("abort", None)
        except BaseException as e:  # noqa
            self.results[tid] = ("exc", e)
        finally:
            sys.settrace(None)
            self.state[tid] = "done"
            self._leave(tid)

    def _leave(self, tid):
        if self.failure is not None:
            # unwind the remaining threads one by one
            for t in self.tids:
                if self.state[t] != "done":
                    self.state[t] = "run"
                    self.cur = t
                    self.sem[t].release()
                    return
        run = self.runnable()
        if run:
            self.points += 1
            nxt = self.choose(True)
            self.switches.append([self.points, nxt])
            self.digest.update(b"%d:%d;" % (self.points, nxt))
            self.cur = nxt
            self.sem[nxt].release()
            return
        blocked = [t for t in self.tids if self.state[t] == "blocked"]
        if blocked:
            self.fail(Deadlock("threads wait for locks that are never released: " + str(blocked)))
            t = blocked[0]
            self.state[t] = "run"
            self.cur = t
            self.sem[t].release()
            return
        self.finished = True
        self.main.release()

    def run(self, fns):
        """Run the callables as simulated threads; returns their results in order."""
        global _current
        self.main = _real_Lock()
        self.main.acquire()
        self.tids = list(range(len(fns)))
        ths = []
        for t, fn in enumerate(fns):
            self.sem[t] = _real_Lock()
            self.sem[t].acquire()
            self.state[t] = "run"
        if self.mode == "pct":
            order = self.tids[:]
            self.rng.shuffle(order)
            self.prio = {t: i + 1 for i, t in enumerate(order)}
        _current = self
        try:
            for t, fn in enumerate(fns):
                _thread.start_new_thread(self._body, (t, fn))
            first = 0 if self.mode in ("list", "none") else (
                max(self.tids, key=lambda t: self.prio[t]) if self.mode == "pct" else self.rng.randrange(len(fns)))
            if self.mode == "list" and 0 in self.script:
                first = self.script[0] if self.script[0] in self.tids else 0
            self.switches.append([0, first])
            self.cur = first
            self.sem[first].release()
            self.main.acquire()
        finally:
            _current = None
        if self.failure is not None:
            raise self.failure
        return [self.results[t] for t in self.tids]


class quiet:
    """No switch points inside (used by oracles that run on simulated threads)."""

    def __enter__(self):
        _tls.quiet = getattr(_tls, "quiet", 0) + 1

    def __exit__(self, *a):
        _tls.quiet -= 1


def seam_point():
    s = _current
    if s is not None and me() is not None and not s.finished:
        s.point("seam")
