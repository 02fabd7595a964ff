"""C18: mapping through a pool vs calling the function on each record"""
import multiprocessing
import os
import signal
import tempfile
import threading
import time

from dustgoggles.structures import MaybePool, map_into_pool
from vmon import gen, procs
from vmon.core import Check, Inconclusive, Workload

class Odd(Exception):
    pass


class Rich(ValueError):
    def __init__(self, a, b=2):
        super().__init__(a, b)
        self.b = b


ERRORS = {
    "value": ValueError, "key": KeyError, "odd": Odd, "rich": Rich,
    "zero": ZeroDivisionError, "stop": StopIteration, "index": IndexError,
    "os": OSError, "assert": AssertionError, "eof": EOFError,
    "timeout": TimeoutError, "type": TypeError, "attr": AttributeError,
}


def work(log, n, *args, fail=None, nap=0, wait=None, give="nothing is given",
         **kwargs):
    """append one line to a log, then return or raise"""
    fd = os.open(log, os.O_WRONLY | os.O_APPEND | os.O_CREAT)
    os.write(fd, f"{n}\n".encode())
    os.close(fd)
    if nap:
        time.sleep(nap)
    if wait is not None:
        for _ in range(60000):
            if os.path.exists(wait):
                break
            time.sleep(0.001)
    if fail is not None:
        raise ERRORS[fail](*args)
    if give != "nothing is given":
        return give
    return [n, args, kwargs]


def no_arguments():
    return "none"


def only_kwargs(*, a, func=None, args=(), kwargs=None, key=None):
    return a, func, args, kwargs, key


class Callable:
    def __init__(self, base):
        self.base = base

    def __call__(self, x, y=1):
        if x == "bad":
            raise Odd(self.base)
        return self.base, x, y


def value(rng):
    return rng.choice([
        lambda: rng.randint(-9, 9), lambda: gen.text(rng), lambda: None,
        lambda: [1, {"a": (2,)}], lambda: b"x" * rng.choice([0, 1, 100000]),
        lambda: float("nan"), lambda: ValueError, lambda: {"k": 1},
        lambda: NotImplemented, lambda: BaseException, lambda: ...,
        lambda: rng.choice([KeyboardInterrupt("value"), SystemExit(0),
                            GeneratorExit()]),
        lambda: gen.literal(rng, 2),
    ])()


KEYS = ["a", "b", "key", "chunk_0", "chunk_1", "", 0, 1, 2, 7, -1, 2.5, None,
        ("t", 1), b"k", "0", "é", frozenset([3])]


class Job:
    """records, the expected outcome of each, and a log of evaluations"""

    def __init__(self, mon, rng, n=None, wait=None, naps=True):
        self.rng = rng
        fd, self.log = tempfile.mkstemp(dir=".")
        os.close(fd)
        self.log = os.path.abspath(self.log)
        if n is None:
            n = gen.size(rng, [0, 1, 2, 3, 5, 8, 20], 0.02, (70, 130, 300))
        keyed = rng.choice(["none", "none", "all", "some"])
        failing = rng.choice([0, 0, 0.2, 0.5, 1])
        keys = rng.sample(KEYS, min(n, len(KEYS))) + list(range(1000, 1050 + n))
        self.recs, self.want = [], {}
        for i in range(n):
            args = tuple(value(rng) for _ in range(rng.choice([0, 0, 1, 3])))
            kwargs = {k: value(rng) for k in rng.sample(
                ["a", "key", "args", "kwargs", "func", "threads"],
                rng.choice([0, 0, 1, 2]))}
            want = [i, args, dict(kwargs)]
            if rng.random() < 0.2:
                want = kwargs["give"] = value(rng)
            if rng.random() < failing:
                kwargs["fail"] = rng.choice(sorted(ERRORS))
                args = (gen.text(rng),)
                if kwargs["fail"] != "rich" and rng.random() < 0.3:
                    args = rng.choice([(), (), (1,), (None,), ("", 2)])
                want = ERRORS[kwargs["fail"]](*args)
            if naps and rng.random() < 0.2:
                kwargs["nap"] = rng.choice([0.001, 0.005])
            if wait is not None and wait(i):
                kwargs["wait"] = os.path.abspath("release")
            rec = {"args": (self.log, i, *args), "kwargs": kwargs}
            if not kwargs and rng.random() < 0.5:
                del rec["kwargs"]
            key = i
            if keyed == "all" or (keyed == "some" and rng.random() < 0.5
                                  and n < 900):
                # positions of others are taken as keys elsewhere
                key = keys[i] if keyed == "all" else f"own {i}"
                rec["key"] = key
            self.recs.append(rec)
            self.want[key] = want
        self.failing = [v for v in self.want.values()
                        if isinstance(v, Exception)]
        if rng.random() < 0.3:
            self.recs = tuple(self.recs)

    def evaluated(self):
        with open(self.log) as f:
            return sorted(map(int, f.read().split()))

    def check_log(self, mon):
        mon.eq(self.evaluated(), list(range(len(self.recs))),
               "evaluations of the records")

    def compare(self, mon, got, filtered=False):
        want = self.want
        if filtered:
            want = {k: v for k, v in want.items()
                    if not isinstance(v, Exception)}
            mon.ev("filtered", len(self.want) - len(want))
        mon.check(isinstance(got, dict) and set(got) == set(want),
                  "keys of the results", got=got, want=list(want))
        for k, v in want.items():
            if isinstance(v, Exception):
                mon.check(type(got[k]) is type(v) and got[k].args == v.args,
                          "exception of a record", key=k, got=got[k],
                          want=v)
                mon.ev("exceptions_delivered")
            else:
                mon.eq(got[k], v, "result of a record", key=k)
                mon.ev("results_delivered")


def settle(mon, condition, what):
    """
    wait for another process.  when it takes unreasonably long, a control
    experiment tells whether the machine or the pool is to blame.
    """
    start = time.monotonic()
    while time.monotonic() < start + 45:
        if condition():
            return
        time.sleep(0.001)
    start = time.monotonic()
    [out] = procs.run_procs([lambda: sum(range(10 ** 6))])
    took = time.monotonic() - start
    if condition():
        return
    if out[0] == "ok" and took < 2:
        mon.fail(f"{what}: nothing happened in 45 s, though a new process "
                 f"does a comparable job in {took:.2f} s")
    raise Inconclusive(f"nothing happened for 45 s: {what}")


def threads(rng):
    return gen.size(rng, [None, None, 1, 2, 3, 4], 0.02, (6, 9, 17))


def w_map(mon, rng):
    n = threads(rng)
    job = Job(mon, rng)
    kw = {}
    if n is not None or rng.random() < 0.5:
        kw["threads"] = n
    as_chunks, filtered = rng.random() < 0.5, rng.random() < 0.4
    if not as_chunks or rng.random() < 0.5:
        kw["as_chunks"] = as_chunks
    if filtered or rng.random() < 0.3:
        kw["filter_exc"] = filtered
    others = mine()
    got = map_into_pool(work, job.recs, **kw)
    settle(mon, lambda: mine() <= others, "a worker is left")
    job.compare(mon, got, filtered)
    job.check_log(mon)
    mon.ev(f"maps_{'serial' if n is None else 'parallel'}")
    mon.ev("maps_chunked", as_chunks)
    mon.sig("map", n, as_chunks, filtered, len(job.recs), len(job.failing),
            sorted(map(str, job.want)))
    mon.sample(f"{len(job.recs)} records, threads={n}, chunks={as_chunks}, "
               f"{len(job.failing)} raise")


def w_functions(mon, rng):
    """other callables"""
    n, chunks = threads(rng), rng.random() < 0.5
    kind = rng.choice(["none", "kwargs", "instance", "builtin"])
    if kind == "none":
        recs = [{} for _ in range(rng.randint(0, 4))]
        func, want = no_arguments, {i: "none" for i in range(len(recs))}
    elif kind == "kwargs":
        recs = [{"kwargs": {"a": i, "func": 1, "key": 2}} for i in range(3)]
        func, want = only_kwargs, {
            i: (i, 1, (), None, 2) for i in range(3)}
    elif kind == "instance":
        recs = [{"args": [1]}, {"args": (2,), "kwargs": {"y": 5}},
                {"args": "z"}]
        func, want = Callable("b"), {0: ("b", 1, 1), 1: ("b", 2, 5),
                                     2: ("b", "z", 1)}
    else:
        recs = [{"args": ([3, 1, 2],), "kwargs": {"reverse": True}},
                {"args": ("ba",)}]
        func, want = sorted, {0: [3, 2, 1], 1: ["a", "b"]}
    got = map_into_pool(func, recs, n, as_chunks=chunks)
    mon.check(set(got) == set(want), "keys", got=got, want=want)
    for k in want:
        mon.eq(got[k], want[k], "result of a record")
    mon.ev("results_delivered", len(want))
    mon.sig("fn", kind, n, chunks)


def consistent(mon, pool, when):
    flags = pool.results_ready()
    n = pool.n_results
    ready, running = pool.n_ready, pool.n_running
    mon.eq(len(flags), n, f"number of results {when}")
    mon.check(0 <= ready <= n and 0 <= running <= n, f"counts {when}",
              got=(ready, running, n))
    return flags, n, ready, running


def mine():
    return set(multiprocessing.active_children())


def w_reuse(mon, rng):
    """one pool for several maps in either mode"""
    n = threads(rng)
    others = mine()
    pool = MaybePool(n)
    trail = []
    try:
        mon.eq([pool.n_results, pool.n_ready, pool.get()], [0, 0, {}],
               "results of a new pool")
        for _ in range(rng.randint(1, 4)):
            job = Job(mon, rng)
            chunks = rng.random() < 0.5
            if chunks or rng.random() < 0.5:
                pool.map(work, job.recs, as_chunks=chunks)
            else:
                pool.map(work, job.recs)
            raising = rng.random() < 0.4
            trail.append((chunks, raising, len(job.recs), len(job.failing)))
            if n is not None or rng.random() < 0.5:
                settle(mon, pool.ready, "pool is not ready")
            if raising and job.failing:
                try:
                    got = pool.get(raise_exc=True)
                except Exception as ex:
                    mon.check(any(type(ex) is type(f) and ex.args == f.args
                                  for f in job.failing),
                              "exception raised is no record's", got=ex,
                              want=job.failing)
                    mon.ev("raised")
                else:
                    mon.fail("nothing raised", got=got, want=job.failing)
                settle(mon, pool.ready, "pool is not ready")
            elif raising:
                job.compare(mon, pool.get(raise_exc=True))
            else:
                job.compare(mon, pool.get())
            flags, total, ready, running = consistent(
                mon, pool, "after getting")
            mon.check(ready == total and running == 0 and all(flags.values())
                      and pool.ready() is True,
                      "everything was got, but not ready",
                      got=(flags, ready, running))
            if n is None or not chunks:
                mon.check(set(flags) == set(job.want) and
                          total == len(job.want), "results listed",
                          got=flags)
            # a second look is the same
            job.compare(mon, pool.get())
            job.check_log(mon)
            mon.ev("reuses")
        if rng.random() < 0.5:
            pool.close()
            pool.join()
            job.compare(mon, pool.get())
    finally:
        pool.terminate()
    mon.eq([pool.n_results, pool.n_ready, pool.n_running, pool.get(),
            pool.results_ready()], [0, 0, 0, {}, {}],
           "results after terminating")
    settle(mon, lambda: mine() <= others, "a worker is left")
    mon.ev("pools_gone")
    mon.sig("reuse", n, trail)


def interrupted(mon, pool):
    """a wish to stop reaches who is waiting for results"""
    def stop(*_):
        raise KeyboardInterrupt("stop")

    def later():
        time.sleep(0.02)
        os.kill(os.getpid(), signal.SIGUSR1)
        # should the wish get lost
        for _ in range(500):
            if over.wait(0.01):
                return
        open("release", "w").close()
    over = threading.Event()
    before = signal.signal(signal.SIGUSR1, stop)
    thread = threading.Thread(target=later)
    thread.start()
    try:
        mon.raises(KeyboardInterrupt, pool.get, "an interrupted wait")
    finally:
        over.set()
        thread.join()
        signal.signal(signal.SIGUSR1, before)
    mon.ev("interrupted_waits")


def w_progress(mon, rng):
    """readiness while some records are held up"""
    n = rng.choice([1, 2, 3, 4])
    total = rng.choice([1, 2, 3, 5, 8])
    stuck = set(rng.sample(range(total), rng.randint(1, min(total, n))))
    chunks = rng.random() < 0.4
    job = Job(mon, rng, total, stuck.__contains__, naps=False)
    keys = list(job.want)
    pool = MaybePool(n)
    try:
        pool.map(work, job.recs, as_chunks=chunks)
        # the held ones are certainly running
        for _ in range(5):
            flags, results, ready, running = consistent(mon, pool, "midway")
            mon.check(pool.ready() is False, "ready although held up")
            mon.check(running >= 1 and ready <= results - 1,
                      "counts while held up", got=(ready, running, results))
            if not chunks:
                mon.eq(results, total, "number of results")
                for i in stuck:
                    mon.check(flags[keys[i]] is False,
                              "a held result is ready", got=flags)
                mon.check(running >= len(stuck), "running while held up",
                          got=running)
            mon.ev("progress_reports")
        if not chunks and len(stuck) < n:
            # all others can finish
            settle(mon, lambda: pool.n_ready == total - len(stuck),
                   "free records do not finish")
            flags = pool.results_ready()
            mon.check(all(flags[k] is (i not in stuck)
                          for i, k in enumerate(keys)), "readiness",
                      got=flags, stuck=stuck)
            mon.eq(pool.n_running, len(stuck), "number running")
        if rng.random() < 0.3:
            interrupted(mon, pool)
        open("release", "w").close()
        settle(mon, pool.ready, "released records do not finish")
        flags, results, ready, running = consistent(mon, pool, "at the end")
        mon.check(all(flags.values()) and ready == results and running == 0,
                  "not all ready at the end", got=(flags, ready, running))
        job.compare(mon, pool.get())
        job.check_log(mon)
    finally:
        open("release", "w").close()
        pool.terminate()
    mon.sig("progress", n, total, len(stuck), chunks)


def w_serial(mon, rng):
    """no worker processes at all: everything happens at once, here"""
    pool = MaybePool(rng.choice([None, None]))
    job = Job(mon, rng)
    order = []

    def here(log, i, *args, **kwargs):
        order.append(i)
        return work(log, i, *args, **kwargs)
    # (an unpicklable function will do)
    pool.map(here, job.recs, as_chunks=rng.random() < 0.5)
    mon.eq(sorted(order), list(range(len(job.recs))), "evaluations")
    mon.check(pool.ready() is True and pool.n_running == 0,
              "a serial pool is ready")
    job.compare(mon, pool.get())
    job.check_log(mon)
    out = pool.apply(len, ("abc",))
    mon.check(out.ready() is True and out.get() == 3, "apply")
    out = pool.apply(int, ("x",), {"base": 7})
    mon.raises(ValueError, out.get, "apply of a failing function")
    if rng.random() < 0.2:
        # a wish to stop is nobody's result
        ran = []

        def stop(i):
            ran.append(i)
            if i == 1:
                raise KeyboardInterrupt("stop")
            return i
        mon.raises(KeyboardInterrupt, lambda: pool.map(
            stop, [{"args": (i,)} for i in range(3)],
            as_chunks=rng.random() < 0.5), "an interrupted map")
        mon.check(ran[-1] == 1, "an interrupted map went on", ran=ran)
    pool.close(), pool.join(), pool.terminate()
    mon.eq(pool.get(), {}, "results after terminating")
    mon.ev("maps_serial")
    mon.sig("serial", len(job.recs), len(job.failing))


def w_slow(mon, rng):
    """results that take their time"""
    n, chunks = rng.choice([1, 2, 3]), rng.random() < 0.5
    job = Job(mon, rng, n=3, naps=False)
    late = rng.randrange(3)
    job.recs[late].setdefault("kwargs", {})["nap"] = rng.choice([3, 5])
    if rng.random() < 0.3:
        job.compare(mon, map_into_pool(work, job.recs, n, as_chunks=chunks))
    else:
        pool = MaybePool(n)
        try:
            pool.map(work, job.recs, as_chunks=chunks)
            job.compare(mon, pool.get())
            job.compare(mon, pool.get())
        finally:
            pool.terminate()
    job.check_log(mon)
    mon.ev("slow_maps")
    mon.sig("slow", n, chunks, late)


def w_apply(mon, rng):
    """single calls on a pool"""
    pool = MaybePool(rng.choice([1, 2]))
    try:
        outs = [(pool.apply(work, (os.path.abspath("log"), i, i),
                            {"a": i} if i % 2 else None), i)
                for i in range(rng.randint(1, 6))]
        for out, i in outs:
            mon.eq(out.get(), [i, (i,), {"a": i} if i % 2 else {}],
                   "result of a call")
            mon.check(out.ready() is True, "ready")
        with open("log") as f:
            mon.eq(sorted(map(int, f.read().split())),
                   [i for _, i in outs], "evaluations")
    finally:
        pool.terminate()
    mon.ev("results_delivered", len(outs))


CHECK = Check(
    "C18",
    [
        Workload(w_map, 500, 20000,
                 {"maps_parallel": 150, "maps_serial": 80, "maps_chunked": 100,
                  "exceptions_delivered": 200, "results_delivered": 1000,
                  "filtered": 50}),
        Workload(w_functions, 100, 3000),
        Workload(w_reuse, 200, 8000, {"reuses": 300, "raised": 50}),
        Workload(w_progress, 150, 5000, {"progress_reports": 500}),
        Workload(w_serial, 400, 10000),
        Workload(w_apply, 40, 1000),
        Workload(w_slow, 8, 80, {"slow_maps": 8}),
    ],
    rule="a case maps a logging function over random argument records with "
         "0-4 worker processes, chunked or not, some records raising, "
         "sleeping or held up; results, exceptions and the log of "
         "evaluations are compared with one plain call per record; distinct "
         "= distinct (workers, mode, sizes, failures)",
    assumptions=["functions, results and exceptions can be pickled",
                 "functions do not return exceptions",
                 "keys are distinct"],
)
