"""C07: concurrent writers of one notepad, grid paper or index"""
import json
import traceback

import numpy as np

from dustgoggles.codex.implements import (
    GridPaper, MetaTagIndex, Notepad, TagIndex
)
from vmon import procs, sched, shmtrace
from vmon.core import Check, Workload


def grid_value(rng, tag):
    n = rng.choice([0, 1, 1, 2, 5, 40])
    return np.full((n,), tag, dtype=rng.choice(["u1", "<i4", ">i8", "<f4"]))


# of every handle of the present case
OPTIONS = {}


class Pad:
    refused = KeyError
    contests = True

    def __init__(self, name, create=False):
        self.x = Notepad(name, create=create, **OPTIONS)

    def value(self, rng, tag):
        return [tag] * rng.choice([0, 1, 2, 300]) + [tag]

    def put(self, k, v):
        self.x[k] = v

    def put_new(self, k, v):
        self.x.set(k, v, exists_ok=False)

    def drop(self, k):
        del self.x[k]

    def read(self, k):
        return self.x[k]

    def has(self, k):
        return self.x.get(k, self) is not self

    def listing(self):
        return self.x.keys()


class Grid(Pad):
    contests = False

    def __init__(self, name, create=False):
        self.x = GridPaper(name, create=create, **OPTIONS)

    def value(self, rng, tag):
        return grid_value(rng, tag % 100)

    def put(self, k, v):
        self.x[k] = v

    def has(self, k):
        return self.x.get(k, None) is not None


class Tags(Pad):
    refused = FileExistsError

    def __init__(self, name, create=False):
        self.x = TagIndex(name, create=create, **OPTIONS)

    def value(self, rng, tag):
        return None

    def put(self, k, v):
        self.x.add(k)

    def put_new(self, k, v):
        self.x.add(k, exists_ok=False)

    def drop(self, k):
        self.x.remove(k)

    def read(self, k):
        if self.x.check(k) is None:
            raise KeyError(k)

    def has(self, k):
        return self.x.check(k) is not None

    def listing(self):
        return self.x.update()


class Meta(Tags):
    def __init__(self, name, create=False):
        self.x = MetaTagIndex(name, create=create, **OPTIONS)

    def value(self, rng, tag):
        return {"tag": tag, "pad": "x" * rng.choice([0, 1, 30])}

    def put(self, k, v):
        self.x.add(k, v)

    def put_new(self, k, v):
        self.x.add(k, v, exists_ok=False)

    def read(self, k):
        return json.loads(self.x[k])

    def listing(self):
        return self.x.keys()


KINDS = {"notepad": Pad, "gridpaper": Grid, "index": Tags, "metaindex": Meta}


class Writer:
    """one process: the sole writer of its keys"""

    def __init__(self, mon, rng, kind, name, who, own, everyone, contested,
                 n_ops, shared_model=None):
        self.mon, self.rng, self.cls, self.name = mon, rng, KINDS[kind], name
        self.who, self.own, self.everyone = who, own, everyone
        self.contested, self.n_ops = list(contested), n_ops
        self.model, self.won, self.log = {}, {}, []

    def run(self):
        r = self.rng
        h = self.cls(self.name)
        tag = self.who * 1000
        todo = [None] * self.n_ops + [("contest", k) for k in self.contested]
        r.shuffle(todo)
        for item in todo:
            tag += 1
            if item is not None:
                _, k = item
                v = h.value(r, tag)
                self.log.append(("contest", k))
                try:
                    h.put_new(k, v)
                    self.won[k] = v
                except h.refused:
                    pass
                self.mon.ev("contest_entries")
                continue
            k = r.choice(self.own)
            name = r.choice(["put", "put", "put", "drop", "drop", "read",
                             "list", "put_new"])
            self.log.append((name, k, k in self.model))
            self.mon.ev("operations")
            if name == "put":
                v = h.value(r, tag)
                h.put(k, v)
                self.model[k] = v
            elif name == "put_new" and self.cls is not Grid:
                v = h.value(r, tag)
                try:
                    h.put_new(k, v)
                    self.mon.check(k not in self.model,
                                   "re-adding was not refused", key=k)
                    self.model[k] = v
                except h.refused:
                    self.mon.check(k in self.model, "adding an absent key was "
                                   "refused", key=k, log=self.log)
            elif name == "drop":
                if k in self.model:
                    h.drop(k)
                    del self.model[k]
                else:
                    self.mon.raises(KeyError, lambda: h.drop(k),
                                    "deleting an absent key", log=self.log)
            elif name == "list":
                self.check_listing(h)
            self.check_own(h, k)
            if r.random() < 0.1:
                h = self.cls(self.name)
        for k in self.own:
            self.check_own(h, k)
        return self

    def check_own(self, h, k):
        kw = {"writer": self.who, "key": k, "log": self.log[-8:]}
        if k in self.model:
            try:
                got = h.read(k)
            except (KeyError, FileNotFoundError) as ex:
                self.mon.fail(f"the writer's own key is lost: {ex!r}", **kw)
            self.mon.eq(got, self.model[k],
                        "the writer reads another value than it wrote", **kw)
            self.mon.ev("own_reads")
        else:
            self.mon.check(not h.has(k), "the writer's deleted key is there",
                           **kw)

    def check_listing(self, h):
        got = h.listing()
        kw = {"writer": self.who, "listing": got, "log": self.log[-8:]}
        self.mon.check(len(got) == len(set(got)),
                       "a key is listed twice meanwhile", **kw)
        self.mon.check(set(got) <= self.everyone,
                       "a key is listed that nobody added", **kw)
        for k in self.own:
            self.mon.check((k in got) == (k in self.model),
                           "listing disagrees with the writer's own key",
                           key=k, **kw)
        self.mon.ev("listings_meanwhile")


def quiescent(mon, kind, name, writers, contested):
    """all processes have finished: what is there?"""
    want = {}
    for w in writers:
        want |= w.model
    logs = [w.log for w in writers]
    for k in contested:
        winners = [w.who for w in writers if k in w.won]
        mon.check(len(winners) == 1, "adding a new key with overwriting "
                  "refused must succeed for exactly one process",
                  winners=winners, key=k, logs=logs)
        want[k] = writers[winners[0]].won[k]
        mon.ev("contests_decided")
    for h in (KINDS[kind](name), KINDS[kind](name)):
        got = h.listing()
        mon.eq(sorted(got), sorted(want), "final listing", logs=logs)
        for k in want:
            mon.eq(h.read(k), want[k], "final value", key=k, logs=logs)
        index = h.x if kind.endswith("index") else h.x.index
        mon.eq([index.check(k) for k in got], list(range(len(got))),
               "slots of the final listing", logs=logs)
        if isinstance(h, Meta):
            mon.eq([(k, json.loads(v) if isinstance(v, bytes) else v)
                    for k, v in index.items()], [(k, want[k]) for k in got],
                   "final metadata", logs=logs)
    # the object is still in working order
    h.put("after", h.value(writers[0].rng, 1))
    for k in sorted(want):
        h.drop(k)
    mon.eq(h.listing(), ["after"], "listing after the final deletions")
    h.drop("after")
    mon.eq(KINDS[kind](name).listing(), [], "listing at the end")
    mon.ev("quiescent_checks")


def options(rng):
    OPTIONS.clear()
    OPTIONS.update(shmtrace.debugging(rng))


def plan(mon, rng, kind, name, n, n_keys, n_ops, n_contested):
    keys = [[f"p{i}k{j}" for j in range(rng.randint(1, n_keys))]
            for i in range(n)]
    contested = ([f"c{j}" for j in range(n_contested)]
                 if KINDS[kind].contests else [])
    # keys that are there before and stay or go
    h = KINDS[kind](name, create=True)
    everyone = {k for own in keys for k in own} | set(contested)
    writers = []
    for i in range(n):
        import random
        w = Writer(mon, random.Random(rng.random()), kind, name, i, keys[i],
                   everyone, contested, rng.randint(1, n_ops))
        for k in keys[i]:
            if rng.random() < 0.4:
                w.model[k] = h.value(w.rng, i * 1000)
                h.put(k, w.model[k])
        writers.append(w)
    return writers, contested


def raise_errors(mon, s, writers):
    for p in s.procs:
        if p.error is None:
            continue
        if hasattr(p.error, "detail"):
            raise p.error
        mon.fail(
            f"process {p.ix} failed: {type(p.error).__name__}: {p.error}",
            logs=[w.log for w in writers],
            traceback="".join(traceback.format_exception(p.error))[-3000:])


def scheduled(mon, rng, kind):
    shmtrace.untrack()
    options(rng)
    name = shmtrace.fresh()
    try:
        n = rng.choice([2, 2, 2, 3])
        writers, contested = plan(mon, rng, kind, name, n, 2, 4,
                                  rng.choice([0, 0, 1, 1, 2]))
        try:
            s = sched.run_schedule(
                rng, [w.run for w in writers],
                horizon=rng.choice([200, 1000, 4000]), budget=80000)
        except sched.Stuck as ex:
            mon.fail(f"operations never finish: {ex}",
                     logs=[w.log for w in writers])
        raise_errors(mon, s, writers)
        mon.ev("schedules")
        mon.ev("preemptions", s.switches)
        mon.ev("contended_waits", sum(p.idles for p in s.procs))
        mon.sig(kind, s.trail)
        mon.sample(f"{kind}: {n} processes, {s.total} line steps, "
                   f"{s.switches} preemptions, {[w.log for w in writers]}")
        quiescent(mon, kind, name, writers, contested)
    finally:
        shmtrace.sweep(name)


def w_notepad(mon, rng):
    scheduled(mon, rng, "notepad")


def w_gridpaper(mon, rng):
    scheduled(mon, rng, "gridpaper")


def w_index(mon, rng):
    scheduled(mon, rng, rng.choice(["index", "metaindex"]))


def w_contest(mon, rng):
    """little but contested additions"""
    shmtrace.untrack()
    options(rng)
    name = shmtrace.fresh()
    kind = rng.choice(["notepad", "index", "metaindex"])
    try:
        writers, contested = plan(mon, rng, kind, name, rng.choice([2, 3, 4]),
                                  1, 1, rng.choice([1, 2]))
        try:
            s = sched.run_schedule(rng, [w.run for w in writers],
                                   horizon=rng.choice([200, 1000]))
        except sched.Stuck as ex:
            mon.fail(f"operations never finish: {ex}")
        raise_errors(mon, s, writers)
        mon.ev("schedules")
        mon.sig("contest", kind, s.trail)
        quiescent(mon, kind, name, writers, contested)
    finally:
        shmtrace.sweep(name)


def w_processes(mon, rng):
    """real processes with delays at the shared-memory calls"""
    shmtrace.untrack()
    options(rng)
    name = shmtrace.fresh()
    kind = rng.choice(list(KINDS))
    scale = rng.choice([0, 0.0001, 0.0005])
    try:
        n = rng.choice([2, 3, 4, 6])
        writers, contested = plan(mon, rng, kind, name, n, 4, 25, 3)

        def body(w):
            def go():
                import random
                r = random.Random(w.rng.random())

                def delay():
                    if r.random() < 0.2:
                        sched._REAL_SLEEP(r.random() * scale)
                shmtrace.PROXY.delay = delay if scale else None
                w.run()
                return w.model, w.won, w.log
            return go
        res = procs.run_procs([body(w) for w in writers], cpu=30)
        for r in res:
            if r[0] == "exc" and hasattr(r[1], "detail"):
                raise r[1]
        for w, out in zip(writers, procs.clean(mon, res, f"{kind} writers")):
            w.model, w.won, w.log = out
            mon.ev("process_operations", len(w.log))
        quiescent(mon, kind, name, writers, contested)
        mon.sig("procs", kind, [x[0] for w in writers for x in w.log])
    finally:
        shmtrace.sweep(name)


CHECK = Check(
    "C07",
    [
        Workload(w_notepad, 500, 12000),
        Workload(w_gridpaper, 400, 10000),
        Workload(w_index, 600, 12000),
        Workload(w_contest, 500, 10000),
        Workload(w_processes, 24, 400, {"process_operations": 200}),
    ],
    rule="a case is one random schedule (random walk or PCT over every source "
         "line of dustgoggles.codex and of the shared-memory library) of 2-4 "
         "logical processes with their own handles, or a run of 2-6 real "
         "processes with delays at the OS calls; distinct = distinct "
         "sequences of preemption decisions",
    assumptions=["each key has one writer, except contested additions",
                 "preemption within a source line only in real processes"],
)
CHECK.workloads[0].needs.update({
    "schedules": 100, "preemptions": 1000, "contended_waits": 100,
    "own_reads": 300, "listings_meanwhile": 40, "contests_decided": 50,
    "quiescent_checks": 100})
