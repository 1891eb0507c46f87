"""A controlled scheduler: every interleaving of a few real threads, up to a preemption bound.

Each job runs on a real thread, but only the thread that holds the baton moves.  At every
scheduling point (a line of the code under test, or a call into the file system) the
scheduler decides who goes on.  `explore` re-executes the jobs from scratch once for every
sequence of decisions with at most `bound` preemptions (stateless search, depth first).
"""
import _thread
import builtins
import io
import os
import signal
import sys
import threading

STALL = 5.0  # seconds of real time without a scheduling point: give up controlling the schedule
STUCK = 120.0  # seconds without one while nobody is held back: the jobs wait for each other

_ACTIVE = None  # the run that is being controlled
_REAL_LOCK = threading.Lock
_REAL_RLOCK = threading.RLock


class Stuck(Exception):
    """The jobs wait for each other for ever."""


class _Abort(BaseException):
    pass


class Run:
    def __init__(self, jobs, prefix, bound):
        self.jobs = jobs
        self.prefix = prefix
        self.bound = bound
        n = len(jobs)
        self.results = [None] * n
        self.gate = [_thread.allocate_lock() for _ in range(n)]
        for g in self.gate:
            g.acquire()
        self.status = ["ready"] * n  # ready, blocked, done
        self.waits = [None] * n
        self.ids = {}
        self.seen = [{} for _ in range(n)]
        self.decisions = []
        self.current = None
        self.preemptions = 0
        self.points = 0
        self.free = False
        self.dead = False
        self.left = n
        self.finished = _thread.allocate_lock()
        self.finished.acquire()

    # --- the main thread ------------------------------------------------------
    def execute(self):
        global _ACTIVE
        _ACTIVE = self
        try:
            for i in range(len(self.jobs)):
                _thread.start_new_thread(self._body, (i,))
            self._pass_on(None)
            seen = -1
            patience = STALL
            while not self.finished.acquire(timeout=patience):
                if self.points != seen:
                    seen = self.points
                    continue
                if self.free:
                    self.dead = True
                    raise Stuck("the jobs make no progress")
                patience = STUCK
                # a thread waits for something the scheduler does not control: let all go
                seen = self.points
                self.free = True
                for i, g in enumerate(self.gate):
                    if self.status[i] != "done":
                        _release(g)
        except BaseException:
            self.dead = True
            raise
        finally:
            _ACTIVE = None
        if self.dead:
            raise Stuck("every job waits for a lock that another one holds")
        return self.results

    # --- the jobs' threads ----------------------------------------------------
    def _body(self, i):
        self.ids[_thread.get_ident()] = i
        self.gate[i].acquire()
        try:
            r = ("returned", self.jobs[i]())
        except _Abort:
            r = ("aborted", None)
        except BaseException as e:  # noqa
            r = ("raised", type(e).__name__, str(e))
        self.results[i] = r
        self.status[i] = "done"
        self.left -= 1
        if self.left == 0:
            self.finished.release()
        elif not self.free:
            self._pass_on(i)

    def _options(self, cur):
        others = [i for i, s in enumerate(self.status) if s == "ready" and i != cur]
        if cur is not None and self.status[cur] == "ready":
            return [cur] + (others if self.preemptions < self.bound else [])
        return others

    def _decide(self, cur):
        options = self._options(cur)
        if not options:
            return None
        if len(options) == 1:
            return options[0]
        k = len(self.decisions)
        c = self.prefix[k] if k < len(self.prefix) else 0
        c = c if c < len(options) else 0
        self.decisions.append((len(options), c))
        if c and cur is not None and self.status[cur] == "ready":
            self.preemptions += 1
        return options[c]

    def _pass_on(self, cur):
        """Hand the baton on (the calling thread does not keep it)."""
        nxt = self._decide(cur)
        if nxt is None:  # a deadlock
            self.dead = self.free = True
            for i, g in enumerate(self.gate):
                if self.status[i] != "done":
                    _release(g)
            return
        self.current = nxt
        _release(self.gate[nxt])

    def point(self):
        """The calling thread is about to do something visible."""
        if self.dead:
            raise _Abort()
        self.points += 1
        if self.free:
            return
        i = self.ids.get(_thread.get_ident())
        if i is None:
            return
        nxt = self._decide(i)
        if nxt != i:
            self.current = nxt
            _release(self.gate[nxt])
            self.gate[i].acquire()
            if self.dead:
                raise _Abort()

    def wait_for(self, lock):
        """The calling thread cannot go on before lock is released."""
        i = self.ids[_thread.get_ident()]
        self.status[i] = "blocked"
        self.waits[i] = lock
        self._pass_on(i)
        self.gate[i].acquire()
        self.status[i] = "ready"
        self.waits[i] = None
        if self.dead:
            raise _Abort()

    def released(self, lock):
        for i, w in enumerate(self.waits):
            if w is lock:
                self.status[i] = "ready"
                self.waits[i] = None


def _release(lock):
    try:
        lock.release()
    except RuntimeError:
        pass


# --- locks made by the code under test ---------------------------------------------
class _Lock:
    _make = staticmethod(_REAL_LOCK)

    def __init__(self):
        self._real = self._make()

    def acquire(self, blocking=True, timeout=-1):
        run = _ACTIVE
        if run is None or run.free or _thread.get_ident() not in run.ids:
            return self._real.acquire(blocking, timeout)
        run.point()
        while not self._real.acquire(False):
            if not blocking:
                return False
            if run.free:
                return self._real.acquire(True, timeout)
            run.wait_for(self)
        return True

    def release(self):
        self._real.release()
        run = _ACTIVE
        if run is not None:
            run.released(self)

    def locked(self):
        return self._real.locked()

    def __enter__(self):
        return self.acquire()

    def __exit__(self, *exc):
        self.release()

    def _at_fork_reinit(self):
        self._real._at_fork_reinit()


class _RLock(_Lock):
    _make = staticmethod(_REAL_RLOCK)

    def _is_owned(self):
        return self._real._is_owned()

    def _release_save(self):
        s = self._real._release_save()
        run = _ACTIVE
        if run is not None:
            run.released(self)
        return s

    def _acquire_restore(self, s):
        self._real._acquire_restore(s)


def control_locks():
    """From now on, locks can be waited for under the scheduler."""
    threading.Lock = _Lock
    threading.RLock = _RLock


# --- scheduling points: lines of the code under test -------------------------------
class CodePoints:
    """While active, every line (or bytecode) of the files below prefix is a point.

    With visits, only the first so many visits of it by each job are.
    """

    TOOL = 4

    def __init__(self, prefix, fine=False, visits=None):
        self.prefix = prefix
        self.visits = visits
        events = sys.monitoring.events
        self.event = events.INSTRUCTION if fine else events.LINE

    def __enter__(self):
        mon = sys.monitoring
        mon.use_tool_id(self.TOOL, "interleavings")
        mon.register_callback(self.TOOL, self.event, self._visit)
        mon.set_events(self.TOOL, self.event)
        return self

    def __exit__(self, *exc):
        mon = sys.monitoring
        mon.set_events(self.TOOL, 0)
        mon.register_callback(self.TOOL, self.event, None)
        mon.free_tool_id(self.TOOL)
        mon.restart_events()

    def _visit(self, code, where):
        if not code.co_filename.startswith(self.prefix):
            return sys.monitoring.DISABLE
        run = _ACTIVE
        if run is None or (run.preemptions >= run.bound and not run.dead):
            return None
        i = run.ids.get(_thread.get_ident())
        if i is None:
            return None
        if self.visits is not None:
            seen = run.seen[i]
            at = (id(code), where)
            n = seen.get(at, 0)
            if n >= self.visits:
                return None
            seen[at] = n + 1
        run.point()
        return None


# --- scheduling points: calls into the file system ---------------------------------
FS_CALLS = ("stat", "lstat", "mkdir", "rmdir", "open", "unlink", "remove", "utime", "scandir", "listdir",
            "rename", "replace", "access", "chmod", "symlink", "link", "readlink", "truncate")


class FileSystemPoints:
    """While active, every call into the file system about a path below root is a point."""

    def __init__(self, root):
        self.root = os.fsencode(root)
        self.saved = []

    def _below(self, path):
        if isinstance(path, int):
            return False
        try:
            return os.fsencode(path).startswith(self.root)
        except (TypeError, ValueError):
            return False

    def _wrap(self, fn):
        def call(*args, **kw):
            run = _ACTIVE
            if run is not None and _thread.get_ident() in run.ids:
                path = args[0] if args else kw.get("path", kw.get("file", kw.get("src")))
                if path is not None and (self._below(path) or "dir_fd" in kw):
                    run.point()
            return fn(*args, **kw)

        call.__name__ = getattr(fn, "__name__", "call")
        return call

    def __enter__(self):
        for name in FS_CALLS:
            self._patch(os, name)
        self._patch(io, "open")
        self._patch(builtins, "open")
        return self

    def _patch(self, mod, name):
        fn = getattr(mod, name)
        w = self._wrap(fn)
        for attr in ("supports_dir_fd", "supports_follow_symlinks", "supports_fd"):
            s = getattr(os, attr)
            if fn in s:
                s.add(w)
        self.saved.append((mod, name, fn, w))
        setattr(mod, name, w)

    def __exit__(self, *exc):
        for mod, name, fn, w in reversed(self.saved):
            setattr(mod, name, fn)
            for attr in ("supports_dir_fd", "supports_follow_symlinks", "supports_fd"):
                getattr(os, attr).discard(w)


# --- the search --------------------------------------------------------------------
def explore(make, check, bound, limit=60):
    """Run the jobs of make() under every schedule with at most bound preemptions.

    make() -> (jobs, extra); check(results, extra, choices).  Returns the number of
    schedules, of scheduling points, and of schedules that could not be repeated (their
    jobs took other decisions when they were run again: what follows them is not explored).
    """
    stack = []  # (number of options, choice) of each decision of the schedule to run
    runs = points = lost = 0
    while True:
        for attempt in range(3):
            signal.setitimer(signal.ITIMER_PROF, limit)
            jobs, extra = make()
            run = Run(jobs, [c for _, c in stack], bound)
            results = run.execute()
            runs += 1
            points += run.points
            check(results, extra, [c for _, c in run.decisions])
            if run.decisions[:len(stack)] == stack:
                stack = run.decisions
                break
        else:
            lost += 1
        while stack and stack[-1][1] + 1 >= stack[-1][0]:
            stack.pop()
        if not stack:
            return runs, points, lost
        stack[-1] = (stack[-1][0], stack[-1][1] + 1)
