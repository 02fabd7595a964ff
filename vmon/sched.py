"""
deterministic scheduler: logical processes as threads, one running at a time,
preemptible at every line of the traced files and at every time.sleep.

Processes sharing memory only through named blocks may be preempted anywhere,
so each line boundary is an interleaving that real processes can have, provided
that the logical processes share no Python objects: each makes its own handles.
"""
import multiprocessing.shared_memory as _shm
import sys
import threading
import time as _time

from vmon import shmtrace

_REAL_SLEEP = _time.sleep
_CURRENT = threading.local()


class Stuck(Exception):
    """no progress within the step budget of a fair schedule"""


class _Abort(BaseException):
    pass


def sleep(seconds):
    """replacement of time.sleep: yields under the scheduler"""
    proc = getattr(_CURRENT, "proc", None)
    if proc is None:
        return _REAL_SLEEP(seconds)
    if seconds < 0:
        raise ValueError("sleep length must be non-negative")
    proc.sched.point(proc, idle=True)
    if proc.interrupt is not None:
        kind, after = proc.interrupt
        if after <= 1:
            proc.interrupt = None
            raise kind("while waiting")
        proc.interrupt = kind, after - 1


def interrupt(kind, after):
    """raise kind in this process's `after`th wait from now on"""
    proc = _CURRENT.proc
    proc.interrupt = None if after is None else (kind, after)


def step():
    """an explicit preemption point for harness code"""
    proc = getattr(_CURRENT, "proc", None)
    if proc is not None:
        proc.sched.point(proc)


def call():
    """a preemption point before or after a shared-memory call"""
    proc = getattr(_CURRENT, "proc", None)
    if proc is not None:
        proc.sched.point(proc, call=True)


TRACED_SUFFIXES = ("multiprocessing/shared_memory.py",)


def traced(filename, _cache={}):
    hit = _cache.get(filename)
    if hit is None:
        hit = _cache[filename] = (
            "/dustgoggles/codex/" in filename or filename == _shm.__file__
        )
    return hit


class Proc:
    def __init__(self, sched, ix, fn):
        self.sched, self.ix, self.fn = sched, ix, fn
        self.go = threading.Semaphore(0)
        self.done, self.error, self.result = False, None, None
        self.steps = self.idles = 0
        self.interrupt = None
        self.thread = threading.Thread(target=self.main, daemon=True)

    def trace(self, frame, event, _arg):
        if not traced(frame.f_code.co_filename):
            return None
        return self.local

    def local(self, _frame, event, _arg):
        if event == "line":
            self.sched.point(self)
        return self.local

    def main(self):
        self.go.acquire()
        _CURRENT.proc = self
        try:
            if self.sched.abort:
                return
            sys.settrace(self.trace)
            try:
                self.result = self.fn()
            finally:
                sys.settrace(None)
        except _Abort:
            pass
        except BaseException as ex:
            self.error = ex
        finally:
            self.done = True
            _CURRENT.proc = None
            self.sched.finished(self)


class Sched:
    """
    strategy "walk": switch with probability p at every point;
    strategy "pct": random priorities, d priority-change points.
    in both a sleeping (spinning) process lets another one run.
    with calls=True the points are those before and after shared-memory calls,
    rather than all lines: fewer, so each is more likely to be chosen, and the
    others get further in between.
    """

    def __init__(self, rng, strategy="walk", p=0.1, depth=3, horizon=3000,
                 budget=60000, fair=60000, calls=False):
        self.calls, self.n_calls = calls, 0
        self.rng, self.strategy, self.p = rng, strategy, p
        self.budget, self.fair = budget, fair
        self.procs, self.total, self.switches = [], 0, 0
        self.trail = 0
        self.abort, self.stuck = False, False
        self.main_go = threading.Semaphore(0)
        self.changes = {rng.randrange(1, horizon) for _ in range(depth)}

    def spawn(self, fn):
        self.procs.append(Proc(self, len(self.procs), fn))

    def live(self):
        return [p for p in self.procs if not p.done]

    def run(self):
        self.prio = list(range(len(self.procs)))
        self.rng.shuffle(self.prio)
        for p in self.procs:
            p.thread.start()
        first = self.pick(None, False)
        first.go.release()
        self.main_go.acquire()
        for p in self.procs:
            p.thread.join(10)
        if self.stuck:
            raise Stuck(
                f"no progress in {self.fair} steps of a fair schedule; "
                f"unfinished processes: {[p.ix for p in self.procs if p.cut]}"
            )
        return self

    cut = False

    def pick(self, current, idle, call=False):
        live = self.live()
        if not live:
            return None
        others = [p for p in live if p is not current]
        if current is None or current.done:
            others = live
        if self.total > self.budget:
            # fair phase: round robin over long turns
            if current is None or current.done or idle or (
                self.total % 97 == 0 and others
            ):
                pool = others or live
                last = current.ix if current is not None else -1
                return min(pool, key=lambda p: (p.ix <= last, p.ix))
            return current
        if self.calls and not call and not idle and current in live:
            return current
        if self.strategy == "pct":
            if idle and current is not None:
                self.prio[current.ix] = min(self.prio) - 1
            elif (self.n_calls if self.calls else self.total
                  ) in self.changes and current is not None:
                self.prio[current.ix] = min(self.prio) - 1
            return max(live, key=lambda p: self.prio[p.ix])
        if current is None or current.done:
            return self.rng.choice(live)
        if idle and others:
            return self.rng.choice(others)
        if others and self.rng.random() < self.p:
            return self.rng.choice(others)
        return current

    def point(self, proc, idle=False, call=False):
        if self.abort:
            raise _Abort()
        self.total += 1
        proc.steps += 1
        if idle:
            proc.idles += 1
        if self.total > self.budget + self.fair:
            self.abort = self.stuck = True
            for p in self.procs:
                p.cut = not p.done
            raise _Abort()
        self.n_calls += call
        nxt = self.pick(proc, idle, call)
        if nxt is proc:
            return
        self.switches += 1
        self.trail = hash((self.trail, self.total, nxt.ix))
        nxt.go.release()
        proc.go.acquire()
        if self.abort:
            raise _Abort()

    def finished(self, proc):
        if self.abort:
            for p in self.live():
                if not p.done:
                    p.go.release()
                    return
            self.main_go.release()
            return
        nxt = self.pick(proc, True)
        if nxt is None:
            self.main_go.release()
        else:
            self.switches += 1
            nxt.go.release()


def run_schedule(rng, fns, **kw):
    """run callables under one random schedule; returns the Sched"""
    kind = rng.random()
    if kind < 0.45:
        opts = {"strategy": "walk",
                "p": rng.choice([0.02, 0.05, 0.1, 0.2, 0.5])}
    else:
        opts = {"strategy": "pct", "depth": rng.choice([1, 2, 3, 5, 8]),
                "horizon": rng.choice([60, 200, 600, 2000])}
    opts |= kw
    if rng.random() < 0.4:
        opts |= {"calls": True, "p": rng.choice([0.01, 0.03, 0.1, 0.3]),
                 "horizon": rng.choice([20, 60, 200, 600])}
    s = Sched(rng, **opts)
    for fn in fns:
        s.spawn(fn)
    was, shmtrace.PROXY.delay = shmtrace.PROXY.delay, call
    try:
        s.run()
    finally:
        shmtrace.PROXY.delay = was
    return s
