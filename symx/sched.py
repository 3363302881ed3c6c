"""Runs functions in threads of which one at a time runs, the switches being at
points that the caller decides."""
import ast
import os
import sys
import threading

from . import core

LOCK, RLOCK = threading.Lock, threading.RLock
LIMIT = 60


class Abort(BaseException):
    """Unwinds a thread of a run that is over."""


class Stuck(Exception):
    """Something blocked that the scheduler does not know."""


class FakeLock:
    """threading.Lock and RLock whose waiters let other threads run."""

    def __init__(self, sched, reentrant):
        self.s = sched
        self.reentrant = reentrant
        self.owner = None
        self.n = 0

    def acquire(self, blocking=True, timeout=-1):
        me = self.s.current
        while self.n and not (self.reentrant and self.owner == me):
            if not blocking or timeout >= 0:
                return False
            self.s.block(self)
        self.owner = me
        self.n += 1
        return True

    __enter__ = acquire

    def release(self):
        if not self.n or self.reentrant and self.owner != self.s.current:
            raise RuntimeError("release unlocked lock")
        self.n -= 1
        if not self.n:
            self.s.freed(self)

    def __exit__(self, *a):
        self.release()

    def locked(self):
        return self.n > 0


class OwnLock:
    """threading.Lock that tells when a thread waits for itself (the real one would wait forever)."""

    def __init__(self):
        self.real = LOCK()
        self.owner = None

    def acquire(self, blocking=True, timeout=-1):
        if blocking and timeout < 0 and self.owner == threading.get_ident() and self.real.locked():
            raise Stuck("a thread waits for a lock that it holds itself")
        r = self.real.acquire(blocking, timeout)
        if r:
            self.owner = threading.get_ident()
        return r

    __enter__ = acquire

    def release(self):
        self.owner = None
        self.real.release()

    def __exit__(self, *a):
        self.release()

    def locked(self):
        return self.real.locked()


def own_locks(src, mods):
    """Give the package locks that tell when a thread waits for itself."""
    where = os.path.join(src, "hdf5storage") + os.sep

    def make():
        return OwnLock() if any(f.f_code.co_filename.startswith(where) for f in frames(4)) else LOCK()

    make.own = True
    for m in [threading] + list(mods):
        if vars(m).get("Lock") is LOCK or getattr(vars(m).get("Lock"), "own", False):
            m.Lock = make


STATEMENTS = {}


def statements(fn):
    """The lines of statements (or their headers) of one line."""
    if fn not in STATEMENTS:
        with open(fn) as f:
            tree = ast.parse(f.read())
        STATEMENTS[fn] = {n.lineno for n in ast.walk(tree) if isinstance(n, ast.stmt) and n.lineno == header_end(n)}
    return STATEMENTS[fn]


def header_end(n):
    if isinstance(n, (ast.If, ast.While)):
        return n.test.end_lineno
    if isinstance(n, ast.For):
        return n.iter.end_lineno
    if isinstance(n, ast.With):
        return n.items[-1].context_expr.end_lineno
    return n.end_lineno


class Scheduler:
    def __init__(self, ctx, src, mods, fine=()):
        self.ctx = ctx
        self.dir = os.path.join(src, "hdf5storage") + os.sep
        self.mods = mods
        self.fine = fine
        self.current = None
        self.state = []
        self.deadlock = False
        self.failed = None

    # -- locks
    def __enter__(self):
        def maker(reentrant, real):
            def make():
                if sys._getframe(1).f_code.co_filename.startswith(self.dir) or any(
                        f.f_code.co_filename.startswith(self.dir) for f in frames(4)):
                    return FakeLock(self, reentrant)
                return real()
            return make

        self.saved = []
        new = {LOCK: maker(False, LOCK), RLOCK: maker(True, RLOCK)}
        for m in [threading] + list(self.mods):
            for k in ("Lock", "RLock"):
                v = vars(m).get(k)
                f = new[LOCK] if getattr(v, "own", False) else new.get(v) if v in (LOCK, RLOCK) else None
                if f is not None:
                    self.saved.append((m, k, v))
                    setattr(m, k, f)
        return self

    def __exit__(self, *a):
        for m, k, v in self.saved:
            setattr(m, k, v)

    # -- switching
    def start(self, i):
        self.current = i
        self.baton[i].release()

    def wait(self, i):
        self.baton[i].acquire()
        if self.over:
            raise Abort()

    def others(self, i):
        return [j for j in range(len(self.state)) if j != i and self.state[j] == "ready"]

    def switch(self, j):
        i = self.current
        self.start(j)
        self.wait(i)

    def block(self, lock):
        i = self.current
        if i is None or i == "main":
            raise Stuck("the main thread waits for a lock")
        self.state[i] = lock
        o = self.others(i)
        if not o:
            self.deadlock = True
            self.end()
            raise Abort()
        self.switch(o[0])

    def freed(self, lock):
        if self.current is None:
            return
        for j, s in enumerate(self.state):
            if s is lock:
                self.state[j] = "ready"

    def end(self):
        self.over = True
        for b in self.baton:
            b.release()
        self.main.release()

    # -- points at which a switch is possible
    def tracer(self, frame, event, arg):
        if event != "call" or not frame.f_code.co_filename.startswith(self.dir):
            return None
        if frame.f_code.co_name.startswith("<"):
            return None
        self.point()
        if frame.f_code.co_qualname.startswith(self.fine):
            return self.lines()
        return None

    def lines(self):
        last = [None]

        def local(frame, event, arg):
            if event == "line" and frame.f_lineno != last[0] and frame.f_lineno in statements(frame.f_code.co_filename):
                last[0] = frame.f_lineno
                self.point()
            return local

        return local

    def point(self):
        if self.over:
            raise Abort()
        o = self.others(self.current)
        if not o or self.k >= len(self.at):
            return
        n = self.n
        self.n += 1
        if self.at[self.k] == n:
            self.k += 1
            self.n = 0
            self.switch(o[0])

    def run(self, fs, at):
        """Run the functions in threads (see go); whether they ended without a deadlock."""
        try:
            self.go(fs, at)
        except Stuck as e:
            if self.ctx.symbolic:
                raise core.Unsupported(str(e)) from None
            from . import ctx

            raise ctx.Skip() from None
        return not self.deadlock

    def go(self, fs, at):
        """Run the functions; thread 0 starts, at[k] is the number of points before the kth switch."""
        self.state = ["ready"] * len(fs)
        self.baton = [threading.Semaphore(0) for _ in fs]
        self.main = threading.Semaphore(0)
        self.over = False
        self.at, self.k, self.n = at, 0, 0
        ts = [threading.Thread(target=self.body, args=(i, f), daemon=True) for i, f in enumerate(fs)]
        for t in ts:
            t.start()
        self.start(0)
        ok = self.main.acquire(timeout=LIMIT)
        if not ok:
            self.over = True
            for b in self.baton:
                b.release()
            raise Stuck("a thread is blocked by something else")
        for t in ts:
            t.join(LIMIT)
        self.current = None
        if self.failed is not None:
            raise self.failed

    def body(self, i, f):
        try:
            self.wait(i)
            sys.settrace(self.tracer)
            try:
                f()
            finally:
                sys.settrace(None)
        except Abort:
            return
        except BaseException as e:  # noqa: BLE001
            self.failed = e
            self.end()
            return
        self.state[i] = "done"
        o = self.others(i)
        if o:
            self.start(o[0])
        elif all(s == "done" for s in self.state):
            self.end()
        else:
            self.deadlock = True
            self.end()


def frames(n):
    """The callers of the one that makes a lock (through the engine's own frames)."""
    here = os.path.dirname(os.path.abspath(__file__)) + os.sep
    f = sys._getframe(2)
    while f is not None and n and f.f_code.co_filename.startswith(here):
        f = f.f_back
        n -= 1
    return [f] if f is not None else []
