"""C06: mutual exclusion, release and progress of the shared lock"""
import mmap
import os
import struct
import time

from dustgoggles.codex.implements import SlidingLock
from vmon import procs, sched, shmtrace
from vmon.core import Check, Workload


class Inside:
    """monitor of the guarded section (shared by all logical processes)"""

    def __init__(self, mon):
        self.mon, self.now, self.entries, self.order = mon, set(), 0, []

    def enter(self, who):
        if self.now:
            self.mon.fail(
                "two processes inside the guarded section at once",
                inside=sorted(self.now), entering=who, order=self.order[-12:])
        self.now.add(who)
        self.entries += 1
        self.order.append(who)

    def leave(self, who):
        self.now.discard(who)


class Boom(Exception):
    pass


def _acquisitions(name, who, rounds, inside, plan, reuse):
    def body():
        lock = SlidingLock(name) if reuse else None
        got = 0
        for r in range(rounds):
            held = lock if reuse else SlidingLock(name)
            boom = plan[r][1]
            try:
                with held:
                    inside.enter(who)
                    try:
                        for _ in range(plan[r][0]):
                            sched.step()
                        if boom:
                            raise Boom(who)
                    finally:
                        inside.leave(who)
            except Boom:
                got += 1
                continue
            if not boom:
                got += 1
        return got
    return body


def _raise_errors(mon, s):
    for p in s.procs:
        if p.error is not None:
            import traceback
            if hasattr(p.error, "detail"):
                raise p.error
            mon.fail(
                f"process {p.ix} failed with {type(p.error).__name__}: "
                f"{p.error}",
                traceback="".join(traceback.format_exception(p.error))[-3000:])


def w_schedules(mon, rng):
    shmtrace.untrack()
    name = shmtrace.fresh()
    n = rng.choice([2, 2, 2, 3, 3, 4])
    try:
        for _ in range(rng.choice([0, 0, 0, 1, 2, 253, 255, 256])):
            with SlidingLock(name):
                pass
        inside = Inside(mon)
        fns, wanted = [], []
        for who in range(n):
            rounds = rng.randint(1, 4 if n < 4 else 2)
            plan = [(rng.choice([0, 1, 3, 10]), rng.random() < 0.15)
                    for _ in range(rounds)]
            wanted.append(rounds)
            fns.append(_acquisitions(name, who, rounds, inside, plan,
                                     rng.random() < 0.3))
        try:
            s = sched.run_schedule(rng, fns)
        except sched.Stuck as ex:
            mon.fail(f"lock not obtained: {ex}", order=inside.order)
        _raise_errors(mon, s)
        mon.check([p.result for p in s.procs] == wanted,
                  "not every acquisition was completed",
                  got=[p.result for p in s.procs], want=wanted)
        mon.ev("guarded_sections", inside.entries)
        mon.ev("contended_waits", sum(p.idles for p in s.procs))
        mon.ev("preemptions", s.switches)
        mon.ev("schedules")
        mon.sig("sched", n, s.trail)
        mon.sample(f"{n} processes, rounds {wanted}, {s.total} line steps, "
                   f"{s.switches} preemptions, entry order {inside.order}")
        # usable afterwards
        done = []

        def again():
            with SlidingLock(name):
                done.append(1)
        try:
            sched.run_schedule(rng, [again], budget=5000, fair=20000)
        except sched.Stuck:
            mon.fail("lock unusable after all holders have left")
        mon.check(done == [1], "lock unusable after all holders have left")
    finally:
        shmtrace.sweep(name)


def w_limits_and_names(mon, rng):
    """spin limits raise TimeoutError only; other names never block"""
    shmtrace.untrack()
    name = shmtrace.fresh()
    other = name + rng.choice([
        "b", "_lock", "_2", "_count_x", "_", "__", "0", " ", ".", "é",
        "_hold", "_count", "-1", "_1", "_1_lock", "B"])
    inside, timeouts = Inside(mon), []
    n_wait = rng.randint(1, 2)

    def holder():
        for _ in range(rng_plan[0]):
            with SlidingLock(name):
                inside.enter("holder")
                for _ in range(rng_plan[1]):
                    sched.step()
                with SlidingLock(other):
                    mon.ev("other_name_sections")
                inside.leave("holder")

    def limited(who):
        def body():
            lock = SlidingLock(name)
            lock.max_spins = spins[who]
            try:
                with lock:
                    inside.enter(who)
                    sched.step()
                    inside.leave(who)
            except TimeoutError:
                timeouts.append(who)
        return body

    def patient():
        with SlidingLock(name):
            inside.enter("patient")
            sched.step()
            inside.leave("patient")
        return "in"

    rng_plan = (rng.randint(1, 3), rng.choice([5, 50, 300]))
    spins = {w: rng.choice([0, 1, 3, 10]) for w in range(n_wait)}
    try:
        fns = [holder, patient] + [limited(w) for w in range(n_wait)]
        try:
            s = sched.run_schedule(rng, fns)
        except sched.Stuck as ex:
            mon.fail(f"a process never got in: {ex}", order=inside.order,
                     timeouts=timeouts)
        _raise_errors(mon, s)
        mon.check(s.procs[1].result == "in", "patient process was not served")
        mon.ev("timeouts_raised", len(timeouts))
        mon.ev("guarded_sections", inside.entries)
        mon.sig("lim", s.trail)
    finally:
        shmtrace.sweep(name)


def w_timeout_certain(mon, rng):
    """a waiter with a limit, against a holder that never leaves, times out"""
    shmtrace.untrack()
    name = shmtrace.fresh()
    try:
        limit = rng.choice([0, 1, 2, 7, 50])
        with SlidingLock(name):
            lock = SlidingLock(name)
            lock.max_spins = limit

            def wait():
                try:
                    with lock:
                        return "entered"
                except TimeoutError:
                    return "timeout"
            try:
                s = sched.run_schedule(rng, [wait], budget=20000, fair=20000)
            except sched.Stuck:
                mon.fail("spin limit ignored", limit=limit)
            _raise_errors(mon, s)
            mon.check(s.procs[0].result == "timeout",
                      "entered a section that another holder occupies",
                      limit=limit)
            mon.ev("timeouts_raised")
        for _ in range(3):
            with SlidingLock(name):
                mon.ev("guarded_sections")
        mon.sig("certain", limit)
    finally:
        shmtrace.sweep(name)


def w_interrupts(mon, rng):
    """waiters that are interrupted while they wait disturb nobody"""
    shmtrace.untrack()
    name = shmtrace.fresh()
    inside, gone = Inside(mon), []
    n = rng.choice([2, 3, 3, 4])
    plans = [(rng.randint(1, 3), rng.choice([1, 5, 40]),
              rng.choice([None, 1, 2, 4])) for _ in range(n)]
    if all(p[2] is None for p in plans):
        plans[-1] = plans[-1][:2] + (1,)
    kind = rng.choice([KeyboardInterrupt, SystemExit, Boom, OSError])

    def body(who):
        rounds, length, after = plans[who]

        def run():
            left = 0
            for _ in range(rounds):
                sched.interrupt(kind, after)
                try:
                    with SlidingLock(name):
                        sched.interrupt(kind, None)
                        inside.enter(who)
                        for _ in range(length):
                            sched.step()
                        inside.leave(who)
                except kind:
                    gone.append(who)
                    left += 1
            return left
        return run
    try:
        try:
            s = sched.run_schedule(rng, [body(w) for w in range(n)])
        except sched.Stuck as ex:
            mon.fail(f"a process never got in: {ex}", order=inside.order,
                     interrupted=gone, kind=kind)
        _raise_errors(mon, s)
        mon.check(inside.entries + len(gone) == sum(p[0] for p in plans),
                  "an acquisition was lost", entries=inside.entries,
                  interrupted=gone)
        mon.ev("interrupted_waits", len(gone))
        mon.ev("guarded_sections", inside.entries)
        mon.sig("int", n, s.trail)
        # nothing but the counter of the lock remains
        left = shmtrace.live(name)
        mon.check(len(left) <= 1, "blocks of a lock nobody uses", left=left)
        SlidingLock(name).close()
        mon.eq(shmtrace.live(name), set(), "blocks of a closed lock")
        mon.ev("closed_locks")
    finally:
        shmtrace.sweep(name)


def w_exceptions(mon, rng):
    """whatever leaves the section releases the lock, and is not swallowed"""
    shmtrace.untrack()
    name = shmtrace.fresh()
    kinds = [Boom, ValueError, KeyError, FileNotFoundError, FileExistsError,
             TimeoutError, KeyboardInterrupt, SystemExit, GeneratorExit,
             StopIteration]
    try:
        for _ in range(rng.randint(2, 8)):
            kind = rng.choice(kinds)
            exc = kind("x")
            try:
                with SlidingLock(name):
                    raise exc
            except BaseException as ex:
                mon.check(ex is exc, "lock replaced the exception", got=ex)
            else:
                mon.fail("lock swallowed the exception", exc=exc)

            def again():
                with SlidingLock(name):
                    return 1
            try:
                s = sched.run_schedule(rng, [again], budget=3000, fair=9000)
            except sched.Stuck:
                mon.fail("lock still held after its holder raised", exc=exc)
            _raise_errors(mon, s)
            mon.ev("guarded_sections", 2)
            mon.ev("raising_sections")
            mon.sig("exc", kind.__name__)
    finally:
        shmtrace.sweep(name)


def w_many(mon, rng):
    """tens of thousands of acquisitions of one lock"""
    shmtrace.untrack()
    name = shmtrace.fresh()
    rounds = 66000 if mon.tier == "quick" else 200000
    try:
        one = SlidingLock(name)
        for i in range(rounds):
            with (one if i % 2 else SlidingLock(name)):
                pass
        mon.ev("guarded_sections", rounds)
        inside = Inside(mon)
        fns = [_acquisitions(name, w, 2, inside, [(2, False)] * 2, False)
               for w in range(2)]
        try:
            s = sched.run_schedule(rng, fns)
        except sched.Stuck as ex:
            mon.fail(f"lock unusable after {rounds} acquisitions: {ex}")
        _raise_errors(mon, s)
        mon.check(inside.entries == 4, "acquisition lost")
        mon.sig("many", rounds)
    finally:
        shmtrace.sweep(name)


def w_processes(mon, rng):
    """real processes, random delays at every shared-memory call"""
    name = shmtrace.fresh()
    n, rounds = rng.choice([2, 3, 4, 6]), rng.randint(5, 25)
    seeds = [rng.random() for _ in range(n)]
    # counter cell incremented non-atomically inside the section
    cell = mmap.mmap(-1, 8)
    scale = rng.choice([0, 0.0002, 0.001])

    def child(ix):
        def body():
            import random
            r = random.Random(seeds[ix])
            shmtrace.untrack()

            def delay():
                if r.random() < 0.3:
                    sched._REAL_SLEEP(r.random() * scale)
            shmtrace.PROXY.delay = delay if scale else None
            log = []
            for _ in range(rounds):
                with SlidingLock(name):
                    a = time.monotonic_ns()
                    v = struct.unpack("q", cell[:])[0]
                    if r.random() < 0.5:
                        sched._REAL_SLEEP(r.random() * 0.0005)
                    cell[:] = struct.pack("q", v + 1)
                    b = time.monotonic_ns()
                log.append((a, b, ix))
            return log
        return body
    try:
        res = procs.run_procs([child(i) for i in range(n)], cpu=30)
        logs = procs.clean(mon, res, "real processes")
        spans = sorted(x for log in logs for x in log)
        for (a1, b1, p1), (a2, b2, p2) in zip(spans, spans[1:]):
            mon.check(b1 <= a2, "guarded sections of two processes overlap",
                      first=(a1, b1, p1), second=(a2, b2, p2))
        total = struct.unpack("q", cell[:])[0]
        mon.check(total == n * rounds, "guarded updates were lost",
                  total=total, want=n * rounds)
        mon.ev("process_sections", total)
        mon.ev("handovers", sum(x[2] != y[2]
                                for x, y in zip(spans, spans[1:])))
        mon.sig("procs", tuple(x[2] for x in spans))
        mon.sample(f"{n} real processes x {rounds} acquisitions, order "
                   f"{[x[2] for x in spans][:40]}")
    finally:
        cell.close()
        shmtrace.sweep(name)


def w_long_holds(mon, rng):
    """a holder that stays for long keeps everybody out"""
    name = shmtrace.fresh()
    shmtrace.untrack()
    length = rng.choice([2, 6]) if mon.tier == "quick" else \
        rng.choice([10, 30, 70])
    n, fault = rng.randint(1, 3), rng.random() < 0.3
    ready = mmap.mmap(-1, 1)

    def holder():
        with SlidingLock(name):
            a = time.monotonic_ns()
            ready[0] = 1
            sched._REAL_SLEEP(length)
            return a, time.monotonic_ns(), 0

    def waiter(ix):
        def body():
            while not ready[0]:
                sched._REAL_SLEEP(0.001)
            lock = SlidingLock(name)
            lock.delay = 0 if ix < 2 else 0.0005
            with lock:
                a = time.monotonic_ns()
                return a, time.monotonic_ns(), ix
        return body

    def limited():
        """gives up in the meantime, and comes back"""
        while not ready[0]:
            sched._REAL_SLEEP(0.001)
        lock = SlidingLock(name)
        lock.max_spins = 300
        try:
            with lock:
                a = time.monotonic_ns()
                return a, time.monotonic_ns(), -1
        except TimeoutError:
            pass
        with SlidingLock(name):
            a = time.monotonic_ns()
            return a, time.monotonic_ns(), -1
    try:
        res = procs.run_procs(
            [holder] + [waiter(i) for i in range(1, n + 1)]
            + [limited] * fault, cpu=length * 4 + 40)
        spans = sorted(procs.clean(mon, res, "processes"))
        mon.check(spans[0][2] == 0, "entered before the holder", spans=spans)
        for (a1, b1, p1), (a2, b2, p2) in zip(spans, spans[1:]):
            mon.check(b1 <= a2, "guarded sections of two processes overlap",
                      first=(a1, b1, p1), second=(a2, b2, p2))
        mon.ev("long_holds")
        mon.ev("long_waits", len(spans) - 1)
        mon.sig("long", length, n, fault)
    finally:
        ready.close()
        shmtrace.sweep(name)


CHECK = Check(
    "C06",
    [
        Workload(w_schedules, 1400, 30000,
                 {"guarded_sections": 500, "contended_waits": 100,
                  "schedules": 100}),
        Workload(w_limits_and_names, 200, 4000, {"timeouts_raised": 10}),
        Workload(w_timeout_certain, 40, 400),
        Workload(w_exceptions, 40, 400, {"raising_sections": 50}),
        Workload(w_interrupts, 160, 4000,
                 {"interrupted_waits": 50, "closed_locks": 100}),
        Workload(w_many, 1, 2, cpu=200),
        Workload(w_long_holds, 4, 24, {"long_holds": 4}, cpu=400),
        Workload(w_processes, 16, 160,
                 {"process_sections": 100, "handovers": 20}, cpu=120),
    ],
    rule="a case is one random schedule (seeded random walk or PCT priorities "
         "over every source line of the lock and of the shared-memory "
         "library) of 2-4 logical processes, or a run of real processes with "
         "delays injected at the OS calls; distinct = distinct sequences of "
         "preemption decisions",
    assumptions=[
        "a POSIX host; /dev/shm is the shared-memory file system",
        "preemption within one source line is explored only by the real-"
        "process workload",
    ],
)
