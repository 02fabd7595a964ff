"""C08: conservation and ownership of shared-memory blocks"""
import gc
import os
import subprocess
import sys

import numpy as np

from dustgoggles.codex.implements import (
    GridPaper, MetaTagIndex, Notepad, SlidingLock, Sticky, TagIndex
)
from multiprocessing.shared_memory import SharedMemory
from vmon import gen, sched, shmtrace
from vmon.core import Check, Workload


def fds():
    gc.collect()
    return len(os.listdir("/proc/self/fd"))


class Bad:
    def __reduce__(self):
        raise TypeError("will not be pickled")


class Thing:
    """a shared object under test with a model of its keys"""
    meta = False
    mixed = 0  # blocks that there may be because some handles lock

    def __init__(self, mon, rng, prefix, options):
        self.mon, self.rng, self.prefix = mon, rng, prefix
        self.options, self.model, self.log = options, {}, []
        self.h = self.make(True)
        self.handles = [self.h]

    def handle(self):
        if len(self.handles) < 3 and self.rng.random() < 0.1:
            self.handles.append(self.make(False))
            if self.rng.random() < 0.3 and not isinstance(self, Note):
                # a handle that does without locks, or not like the others
                given, self.options = self.options, {
                    **self.options,
                    "no_lockout": not self.options.get("no_lockout", False)}
                self.handles[-1] = self.make(False)
                self.options, self.mixed = given, 1
                self.mon.ev("mixed_handles")
        return self.rng.choice(self.handles)

    def live(self, others):
        """blocks of this object (the most specific prefix owns a block)"""
        out = set()
        for n in shmtrace.live(self.prefix):
            if not any(n.startswith(o) and len(o) > len(self.prefix)
                       for o in others):
                out.add(n)
        return out

    def calibrate(self, others):
        """learn what a key and its metadata cost, in blocks"""
        self.put("cal", self.value(False))
        with_one = len(self.live(others))
        self.put("cal2", self.value(False))
        with_two = len(self.live(others))
        self.drop("cal2")
        self.drop("cal")
        self.base = len(self.live(others))
        self.per_key = with_two - with_one
        self.per_meta = 0
        if self.meta:
            self.put("cal", self.value(False))
            self.put("cal2", self.value(True))
            self.per_meta = len(self.live(others)) - self.base \
                - 2 * self.per_key
            self.drop("cal")
            self.drop("cal2")
        self.mon.check(self.per_key >= 1, "a key has no block")

    def conserved(self, others):
        want = self.base + self.per_key * len(self.model) \
            + self.per_meta * sum(v is not None for v in self.model.values())
        got = self.live(others)
        self.mon.check(
            want <= len(got) <= want + self.mixed,
            "number of blocks does not fit the keys that are there",
            got=sorted(got), want=want, keys=list(self.model),
            log=self.log[-10:])
        self.mon.ev("conservation_checks")

    def op(self):
        r = self.rng
        name = r.choice(["put"] * 5 + ["drop"] * 4 + ["fail"] * 3
                        + ["read"] * 2 + ["clear"])
        k = r.choice(self.keys)
        self.log.append((name, k, k in self.model))
        if name == "put":
            self.h = self.handle()
            v = self.value(r.random() < 0.5)
            self.put(k, v)
            if self.meta and v is None:
                self.model.setdefault(k, None)
            else:
                self.model[k] = v
        elif name == "drop" and k in self.model:
            self.h = self.handle()
            self.drop(k)
            del self.model[k]
        elif name == "clear" and hasattr(self.h, "clear"):
            if r.random() < 0.5:
                self.h.clear()
                self.model.clear()
        elif name == "read":
            self.read(k)
        else:
            self.h = self.handle()
            for f in r.sample(self.failures(k), 2):
                try:
                    f()
                except Exception:
                    self.mon.ev("failed_operations")
        self.mon.ev("operations")

    def failures(self, k):
        return [lambda: self.h.__delitem__("absent"), lambda: self.h["absent"]]

    def close(self):
        self.h.close()


class Pad(Thing):
    def make(self, create):
        return Notepad(self.prefix, create=create, **self.options)

    def value(self, big):
        return gen.picklable(self.rng, 2)

    def put(self, k, v):
        self.h[k] = v

    def drop(self, k):
        del self.h[k]

    def read(self, k):
        self.h.get(k)
        list(self.h.iteritems())
        repr(self.h)

    def failures(self, k):
        out = [lambda: self.h.__delitem__("absent"), lambda: self.h["absent"],
               lambda: self.h.set("index_x", 1),
               lambda: self.h.set("failing", Bad()),
               lambda: self.h.set("failing", Bad(), exists_ok=False),
               lambda: Notepad(self.prefix, create=True)]
        if k in self.model:
            out += [lambda: self.h.set(k, Bad()),
                    lambda: self.h.set(k, 1, exists_ok=False)]
        return out


class Grid(Thing):
    def make(self, create):
        return GridPaper(self.prefix, create=create, **self.options)

    def value(self, big):
        return gen.array(self.rng, ["u1", "<f4", ">i8", "S7"])

    def put(self, k, v):
        self.h[k] = v

    def drop(self, k):
        del self.h[k]

    def read(self, k):
        self.h.get(k, copy=True)
        list(self.h.itervalues())

    def failures(self, k):
        out = [lambda: self.h.__delitem__("absent"), lambda: self.h["absent"],
               lambda: self.h.set("index_x", np.arange(3)),
               lambda: GridPaper(self.prefix, create=True)]
        if k in self.model:
            out.append(lambda: self.h.set(k, np.arange(3), exists_ok=False))
        return out


class Tags(Thing):
    def make(self, create):
        return TagIndex(self.prefix, create=create, **self.options)

    def value(self, big):
        return None

    def put(self, k, v):
        self.h.add(k, v)

    def drop(self, k):
        self.h.remove(k)

    def read(self, k):
        self.h.check(k)
        self.h.update()

    def failures(self, k):
        out = [lambda: self.h.remove("absent"),
               lambda: self.h.add("\ud800"),
               lambda: TagIndex(self.prefix, create=True)]
        if k in self.model:
            out.append(lambda: self.h.add(k, exists_ok=False))
        return out


class Meta(Tags):
    meta = True

    def make(self, create):
        return MetaTagIndex(self.prefix, create=create, **self.options)

    def value(self, big):
        return {"v": "x" * self.rng.choice([0, 50])} if big else None

    def read(self, k):
        self.h.items()
        if self.model.get(k) is not None:
            self.h[k]

    def failures(self, k):
        return super().failures(k)[:-1] + [
            lambda: self.h["absent"],
            lambda: self.h.add("failing", {1, 2}),
            lambda: self.h.add(k, value={1, 2}) if k in self.model else 1 / 0]


class Note(Thing):
    """a sticky: at most one block"""

    def make(self, create):
        return Sticky(self.prefix)

    def value(self, big):
        return gen.picklable(self.rng, 2)

    def calibrate(self, others):
        self.base, self.per_key, self.per_meta = 0, 1, 0

    def put(self, k, v):
        self.h.stick(v)
        self.model.clear()

    def drop(self, k):
        self.rng.choice([self.h.pull, self.h.close])()

    def read(self, k):
        self.h.read(reread=True)

    def failures(self, k):
        return [lambda: self.h.stick(Bad()), lambda: self.h.stick(Bad())]

    def close(self):
        if self.model:
            self.h.close()


KINDS = [Pad, Grid, Tags, Meta, Note]


def make_things(mon, rng, prefix, n):
    out = []
    tails = rng.sample(["", "a", "ab", "z", "1", ".b", "-x", "_zq", "_zq_w"], n)
    for tail in tails:
        opts = {"no_lockout": True} if rng.random() < 0.25 else {}
        t = rng.choice(KINDS)(mon, rng, prefix + tail, opts)
        t.keys = gen.keys(rng, rng.randint(1, 4))
        out.append(t)
    return out


def owner(name, prefixes):
    mine = [p for p in prefixes if name.startswith(p)]
    return max(mine, key=len) if mine else None


def w_histories(mon, rng):
    shmtrace.untrack()
    prefix = shmtrace.fresh()
    foreign = []
    try:
        things = make_things(mon, rng, prefix, rng.choice([1, 2, 2, 3]))
        prefixes = [t.prefix for t in things]
        for t in things:
            t.calibrate(prefixes)
        # blocks that belong to nobody here
        for tail in ("Q", "Q_index", "Q_lock"):
            foreign.append(SharedMemory(prefix + tail, True, 8))
        prefixes.append(prefix + "Q")
        for _ in range(rng.randint(4, 30)):
            t = rng.choice(things)
            with shmtrace.recording() as rec:
                t.op()
            for what, name, error in rec.events:
                mon.ev(f"shm_{what}")
                if what != "attach" and error is None:
                    mon.check(owner(name, prefixes) == t.prefix,
                              f"{what} of a block of another object",
                              block=name, operation=t.log[-1])
            for x in things:
                x.conserved(prefixes)
        order = rng.sample(things, len(things))
        for t in order:
            if rng.random() < 0.7:
                t.h = rng.choice(t.handles)
            with shmtrace.recording() as rec:
                t.close()
            for what, name, error in rec.events:
                if what != "attach" and error is None:
                    mon.check(owner(name, prefixes) == t.prefix,
                              f"closing does {what} a block of another object",
                              block=name, closed=t.prefix)
            mon.eq(t.live(prefixes), set(), "closing leaves blocks behind",
                   kind=type(t).__name__, log=t.log[-10:])
            mon.ev("closings")
            things.remove(t)
            for x in things:
                x.conserved(prefixes)
        for b in foreign:
            mon.check(os.path.exists(f"/dev/shm/{b.name}"),
                      "a foreign block was removed", block=b.name)
        mon.sig([(type(t).__name__, [x[0::2] for x in t.log]) for t in order])
        mon.sample([(type(t).__name__, t.options, t.log[:12])
                    for t in order])
    finally:
        for b in foreign:
            b.close()
        shmtrace.sweep(prefix)


def w_descriptors(mon, rng):
    shmtrace.untrack()
    prefix = shmtrace.fresh()
    try:
        at_first = fds()
        (t,) = make_things(mon, rng, prefix, 1)
        t.calibrate([prefix])
        t.handles = [t.make(False) for _ in range(2)] + [t.h]
        t.handles += [t.h]
        for _ in range(3):
            t.op()
        before = fds()
        n = rng.choice([40, 60])
        for _ in range(n):
            t.op()
            if rng.random() < 0.1:
                t.make(False)
        t.log.append("end")
        after = fds()
        mon.check(after <= before + 3,
                  "open file descriptors accumulate", before=before,
                  after=after, operations=n, kind=type(t).__name__,
                  log=t.log)
        mon.ev("descriptor_checks")
        t.close()
        t.handles.clear()
        t.h = None
        mon.check(fds() <= at_first + 3,
                  "open file descriptors are left after closing",
                  before=at_first, after=fds(), kind=type(t).__name__)
        mon.sig("fd", type(t).__name__, n)
    finally:
        shmtrace.sweep(prefix)


def w_locks(mon, rng):
    """the lock itself leaves nothing but its counter"""
    shmtrace.untrack()
    name = shmtrace.fresh()
    try:
        before = fds()
        with SlidingLock(name):
            pass
        base = shmtrace.live(name)
        for _ in range(rng.randint(5, 30)):
            how = rng.randrange(4)
            lock = SlidingLock(name)
            if how == 0:
                try:
                    with lock:
                        raise ValueError
                except ValueError:
                    mon.ev("failed_operations")
            elif how == 1:
                with lock:
                    waiter = SlidingLock(name)
                    waiter.max_spins = rng.choice([0, 3])
                    held = shmtrace.live(name)
                    mon.raises(TimeoutError, waiter.__enter__,
                               "waiting for a lock that is held")
                    mon.eq(shmtrace.live(name), held,
                           "a waiter that timed out leaves blocks")
                    mon.ev("failed_operations")
            else:
                with lock:
                    pass
            mon.eq(shmtrace.live(name), base, "lock blocks left behind")
            mon.ev("lock_uses")
        other = shmtrace.fresh()
        try:
            with SlidingLock(other):
                pass
            kept = shmtrace.live(other)
            for _ in range(rng.choice([1, 1, 2])):
                rng.choice([lock, SlidingLock(name)]).close()
            mon.eq(shmtrace.live(name), set(), "blocks of a closed lock")
            mon.eq(shmtrace.live(other), kept, "blocks of another lock")
            with SlidingLock(name):
                # the name can be used again
                held = SlidingLock(name)
                held.max_spins = 2
                mon.raises(TimeoutError, held.__enter__,
                           "waiting for a lock that is held")
            SlidingLock(name).close()
            mon.eq(shmtrace.live(name), set(), "blocks of a closed lock")
            mon.ev("closed_locks", 2)
        finally:
            shmtrace.sweep(other)
        del lock, held
        mon.check(fds() <= before + 3, "lock leaves descriptors open")
        mon.sig("lock", len(base))
    finally:
        shmtrace.sweep(name)


def w_concurrent(mon, rng):
    """several logical processes; then close: nothing may be left"""
    shmtrace.untrack()
    prefix = shmtrace.fresh()
    try:
        kind = rng.choice([Pad, Grid, Tags, Meta])
        t = kind(mon, rng, prefix, {})
        t.calibrate([prefix])
        import random
        parts = []
        for i in range(rng.choice([2, 3])):
            r = random.Random(rng.random())

            def body(i=i, r=r):
                mine = kind.__new__(kind)
                mine.mon, mine.rng, mine.prefix = mon, r, prefix
                mine.options, mine.model, mine.log = {}, {}, []
                mine.h = mine.make(False)
                mine.handles = [mine.h] * 3
                mine.keys = [f"p{i}", f"q{i}"]
                for _ in range(r.randint(1, 4)):
                    if r.random() < 0.75:
                        k = r.choice(mine.keys)
                        v = mine.value(True)
                        mine.put(k, v)
                        mine.model[k] = v
                    elif mine.model:
                        k = r.choice(sorted(mine.model))
                        mine.drop(k)
                        del mine.model[k]
                return mine.model
            parts.append(body)
        try:
            s = sched.run_schedule(rng, parts, budget=80000)
        except sched.Stuck as ex:
            mon.fail(f"operations never finish: {ex}")
        for p in s.procs:
            if p.error is not None:
                mon.fail(f"a process failed: {type(p.error).__name__}: "
                         f"{p.error}")
            t.model |= p.result
        t.conserved([prefix])
        t.close()
        mon.eq(shmtrace.live(prefix), set(),
               "closing after concurrent use leaves blocks")
        mon.ev("concurrent_closings")
        mon.sig("conc", kind.__name__, s.trail)
    finally:
        shmtrace.sweep(prefix)


def w_dump(mon, rng):
    shmtrace.untrack()
    prefix = shmtrace.fresh()
    try:
        kind = rng.choice([Pad, Grid])
        t = kind(mon, rng, prefix, {})
        keys = [f"k{i}" for i in range(rng.randint(0, 5))]
        if rng.random() < 0.5:
            # (dots become underscores in the names of files)
            keys = rng.sample(["a b", "a_b", "A_b", "a-b", "ab", "ab ", " ab",
                               "é", "e", "a__b", "ab.x", "a,b", "a:b", "~"],
                              rng.randint(5, 14))
        want = []
        for k in keys:
            v = t.value(True)
            t.put(k, v)
            if kind is Pad:
                with open(f"/dev/shm/{t.h.address(k)}", "rb") as f:
                    want.append(f.read())
            else:
                want.append(v.tobytes())
        before = set(os.listdir("."))
        dump = rng.random() < 0.8
        t.h.close(dump=True) if dump else t.h.close()
        got = []
        for fn in set(os.listdir(".")) - before:
            with open(fn, "rb") as f:
                got.append(f.read())
        mon.eq(sorted(got), sorted(want) if dump else [],
               "files written on closing", kind=kind.__name__)
        mon.eq(shmtrace.live(prefix), set(), "closing leaves blocks")
        mon.ev("dumping_closings", dump)
        mon.sig("dump", kind.__name__, len(keys), dump)
    finally:
        shmtrace.sweep(prefix)


SCRIPT = """
import sys
sys.path.insert(0, "/repo")
sys.dont_write_bytecode = True
sys.pycache_prefix = "/nonexistent/vmon"
from dustgoggles.codex.memutilz import (
    deactivate_shared_memory_resource_tracker)
deactivate_shared_memory_resource_tracker()
import numpy as np
from dustgoggles.codex.implements import *
prefix = sys.argv[1]
"""


def w_exit(mon, rng):
    """cleanup on exit, with the resource tracker out of the way"""
    prefix = shmtrace.fresh()
    try:
        lines, expect_left = [], []
        for i in range(rng.randint(1, 3)):
            kind = rng.choice(["Notepad", "GridPaper", "TagIndex",
                               "MetaTagIndex", "Sticky"])
            clean = rng.random() < 0.8
            p = f"prefix + 'o{i}'"
            if kind == "Sticky":
                how = rng.choice([
                    f"x = Sticky.note([1] * 99, {p}, cleanup_on_exit={clean})",
                    f"x = Sticky({p}, cleanup_on_exit={clean}); x.stick(3)"])
                lines.append(how)
                if not clean:
                    expect_left.append(f"o{i}")
                lines.append(f"x{i} = x")
                continue
            lock = rng.choice(["", ", no_lockout=True"])
            make = True
            if rng.random() < 0.3:
                # the handle to clean up is not the one that created it
                lines.append(f"y{i} = {kind}({p}, create=True{lock})")
                make = False
            lines.append(f"x{i} = {kind}({p}, create={make}, "
                         f"cleanup_on_exit={clean}{lock})")
            for _ in range(rng.randint(0, 5)):
                k = rng.choice(["'a'", "'b'", "'key 3'"])
                if kind == "Notepad":
                    lines.append(f"x{i}[{k}] = [{k}] * {rng.randint(0, 99)}")
                elif kind == "GridPaper":
                    lines.append(f"x{i}[{k}] = np.arange("
                                 f"{rng.randint(1, 999)})")
                else:
                    v = ", {'m': 1}" if kind == "MetaTagIndex" \
                        and rng.random() < .5 else ""
                    lines.append(f"x{i}.add({k}{v})")
                if rng.random() < 0.2:
                    lines.append(f"x{i}.remove({k})" if "Index" in kind
                                 else f"del x{i}[{k}]")
            if not clean:
                expect_left.append(f"o{i}")
            elif rng.random() < 0.15:
                lines.append(f"x{i}.close()")
        if rng.random() < 0.2:
            lines.append("sys.exit(0)")
        if rng.random() < 0.3:
            lines.insert(0, "def main():\n    global x0, x1, x2")
            lines = [lines[0]] + ["    " + x for x in lines[1:]] + ["main()"]
        res = subprocess.run(
            [sys.executable, "-c", SCRIPT + "\n".join(lines), prefix],
            capture_output=True, text=True, timeout=120)
        mon.check(res.returncode == 0, "script failed",
                  stderr=res.stderr[-2000:], script="\n".join(lines))
        left = shmtrace.live(prefix)
        for i in range(3):
            mine = {n for n in left if n.startswith(f"{prefix}o{i}")}
            if f"o{i}" in expect_left:
                mon.check(mine, "object without cleanup has vanished: the "
                          "monitor would not see cleanup", script=lines)
                mon.ev("kept_objects")
            else:
                mon.eq(mine, set(), "blocks left after the interpreter "
                       "exited", script="\n".join(lines),
                       stderr=res.stderr[-1500:])
                mon.ev("cleaned_objects")
        mon.sig("exit", lines)
    finally:
        shmtrace.sweep(prefix)


CHECK = Check(
    "C08",
    [
        Workload(w_histories, 900, 25000,
                 {"operations": 3000, "failed_operations": 300,
                  "conservation_checks": 3000, "closings": 200,
                  "shm_create": 1000, "shm_unlink": 1000}),
        Workload(w_descriptors, 100, 3000, {"descriptor_checks": 50}),
        Workload(w_locks, 60, 1500, {"lock_uses": 300}),
        Workload(w_concurrent, 240, 8000, {"concurrent_closings": 50}),
        Workload(w_dump, 60, 1500, {"dumping_closings": 20}),
        Workload(w_exit, 48, 800, {"cleaned_objects": 30}),
    ],
    rule="a case is a random history over 1-3 shared objects with similar "
         "names, the OS's blocks counted after every operation and every "
         "shm_open/shm_unlink attributed to its object; distinct = distinct "
         "(kinds, operation sequences, schedules, exit scripts)",
    assumptions=["the number of blocks per key is learnt from the object "
                 "itself at the start of the case"],
)
