"""C04: a grid paper vs a dict of arrays"""
import json
import os

import numpy as np

from dustgoggles.codex.codecs import numpy_mnemonic_factory
from dustgoggles.codex.implements import GridPaper
from dustgoggles.codex.memutilz import delete_block
from multiprocessing.shared_memory import SharedMemory
from vmon import gen, procs, shmtrace
from vmon.core import Check, Workload, short


def state(a):
    return a.dtype.str, tuple(a.shape), a.tobytes()


def show(st):
    return f"dtype {st[0]}, shape {st[1]}, bytes {short(st[2], 120)}"


class Session:
    def __init__(self, mon, rng, prefix, keys, options, model=None,
                 handles=()):
        self.mon, self.rng, self.prefix, self.keys = mon, rng, prefix, keys
        self.options = options
        self.model = {} if model is None else model
        self.handles = list(handles)
        self.log, self.copies, self.views = [], [], []
        self.past = {}
        # views of arrays that have been deleted since
        self.orphans = []

    def open(self, create=False):
        opts = self.options
        if self.rng.random() < 0.1:
            # handles need not agree on whether to lock
            opts = {**opts, "no_lockout": self.rng.random() < 0.5}
        h = GridPaper(self.prefix, create=create,
                      update_on_init=self.rng.random() < 0.3, **opts)
        self.handles.append(h)
        return h

    def h(self):
        if len(self.handles) < 4 and self.rng.random() < 0.08:
            self.open()
        return self.rng.choice(self.handles)

    def last(self):
        return short(self.log[-1]) if self.log else "opening"

    def array_is(self, got, want, what, **kw):
        self.mon.check(isinstance(got, np.ndarray), f"{what}: not an array",
                       got=got)
        st = state(got)
        self.mon.check(
            st == want,
            f"{what} after {self.last()}: "
            + ("dtype" if st[0] != want[0] else
               "shape" if st[1] != want[1] else "content") + " differs",
            got=show(st), want=show(want), log=self.log[-10:], **kw)

    def agree(self):
        m, h = self.mon, self.rng.choice(self.handles)
        m.ev("model_comparisons")
        m.eq(sorted(h.keys()), sorted(map(str, self.model)),
             f"listed keys differ after {self.last()}", log=self.log[-10:])
        if self.rng.random() < 0.1:
            for text in (str(h), repr(h)):
                m.check(all(repr(str(k)) in text for k in self.model),
                        "keys in the printed form", text=text)
        for k in self.keys:
            if k in self.model:
                self.array_is(h[k], self.model[k], "stored array", key=k)
            else:
                m.raises(KeyError, lambda: h[k],
                         f"absent key found after {self.last()}", key=k)
        for a, st in self.copies:
            m.check(state(a) == st, "a copy changed after "
                    f"{self.last()}", want=show(st), got=show(state(a)))
        for k, view in self.views:
            self.array_is(view, self.model[k], "live view", key=k)
        for view, st in self.orphans:
            m.check(state(view) == st, "view of a deleted array changed "
                    f"after {self.last()}", want=show(st),
                    got=show(state(view)))
            m.ev("orphans")

    def drop_views(self, k):
        self.views = [(q, v) for q, v in self.views if q != k]

    def orphan(self, k):
        self.orphans += [(v, self.model[k]) for q, v in self.views if q == k]
        del self.orphans[:-5]
        self.drop_views(k)

    def op_set(self, k):
        a = gen.array(self.rng)
        st = state(a)
        h, how = self.h(), self.rng.randrange(4)
        if k in self.past and self.rng.random() < 0.3:
            # dtype and shape as once before
            dtype, shape = self.rng.choice(self.past[k])
            other = np.resize(np.frombuffer(gen.array(
                self.rng, [dtype], empties=False).tobytes(), dtype), shape)
            a, st = other, state(other)
            self.mon.ev("returns")
        elif self.rng.random() < 0.15 and a.size and a.flags.writeable:
            # later the same array is stored with another content
            h[k] = a
            a.flat[self.rng.randrange(a.size)] = np.zeros((), a.dtype)
            st = state(a)
            self.mon.ev("altered_arrays")
        self.past.setdefault(k, []).append((a.dtype, a.shape))
        if how == 0:
            h[k] = a
        elif how == 1:
            h.set(k, a)
        elif how == 2:
            h.set(k, a, exists_ok=True)
        else:
            h.__setitem__(k, a, keep_open=True)
        self.mon.check(state(a) == st, "storing modified the array")
        if a.flags.writeable and a.size:
            # the stored array is independent of the one passed
            a[...] = np.zeros((), a.dtype)
        self.drop_views(k)
        self.model[k] = st
        self.mon.ev("sets")
        self.mon.sig("array", st[0], len(st[1]), min(len(st[2]), 10))

    def op_same_size(self, k):
        """another dtype and shape that need as many or fewer bytes"""
        if k not in self.model:
            return self.op_set(k)
        n = len(self.model[k][2])
        dtype = np.dtype(self.rng.choice(["u1", ">i2", "<f4", ">f8", "S1"]))
        m = max(n // dtype.itemsize - self.rng.choice([0, 0, 1]), 0)
        a = np.frombuffer(self.rng.randbytes(m * dtype.itemsize), dtype)
        if m and m % 2 == 0:
            a = a.reshape((2, m // 2))
        self.h()[k] = a
        self.drop_views(k)
        self.model[k] = state(a)
        self.mon.ev("sets")

    def op_set_refusing(self, k):
        a, h = gen.array(self.rng), self.h()
        if k in self.model:
            self.mon.raises(KeyError, lambda: h.set(k, a, exists_ok=False),
                            "overwriting refused but key present", key=k)
            self.mon.ev("refusals")
        else:
            h.set(k, a, exists_ok=False)
            self.model[k] = state(a)
            self.mon.ev("sets")

    def op_get(self, k):
        h, default = self.h(), object()
        if k not in self.model:
            self.mon.raises(KeyError, lambda: h[k], "absent key", key=k)
            self.mon.check(h.get(k) is None, "get of an absent key")
            default = self.rng.choice([default, default, len, GridPaper, [],
                                       KeyError, lambda *_: None, 0])
            self.mon.check(h.get(k, default) is default,
                           "get of an absent key ignores the default")
            self.mon.ev("absent_gets")
            return
        got = self.rng.choice([
            lambda: h[k], lambda: h.get(k), lambda: h.get(k, default),
            lambda: h.__getitem__(k, copy=True),
            lambda: h.get(k, copy=False),
        ])()
        self.array_is(got, self.model[k], "array read", key=k)
        self.mon.ev("gets")

    def op_copy(self, k):
        if k not in self.model:
            return
        h = self.h()
        a = self.rng.choice([
            lambda: h[k], lambda: h.get(k, copy=True),
            lambda: h.__getitem__(k, copy=True)])()
        self.array_is(a, self.model[k], "copy", key=k)
        if a.size and self.rng.random() < 0.7:
            # writing into a copy changes only the copy
            other = gen.array(self.rng, [a.dtype.str])
            a.flat[self.rng.randrange(a.size)] = (
                other.flat[0] if other.size else np.zeros((), a.dtype))
        self.copies.append((a, state(a)))
        del self.copies[:-5]
        self.mon.ev("copies")

    def op_view(self, k):
        if k not in self.model:
            return
        h = self.h()
        many = self.rng.random() < 0.03
        for _ in range(self.rng.choice([12, 30, 70]) if many else 1):
            v = self.rng.choice([lambda: h.get(k, copy=False),
                                 lambda: h.__getitem__(k, copy=False)])()
            self.array_is(v, self.model[k], "view", key=k)
            self.views.append((k, v))
            if many:
                k = self.rng.choice(list(self.model))
        self.mon.ev("views_from_one_handle", many)
        self.mon.ev("views")
        if not many:
            # of many, those that an operation on their key leaves
            del self.views[:-5 if len(self.views) < 12 else -60]

    def op_write(self, _k):
        """a write to a view is a write to the stored array"""
        if not self.views:
            return
        k, v = self.rng.choice(self.views)
        if not v.size:
            return
        raw = self.rng.randbytes(v.dtype.itemsize)
        if v.dtype.kind == "b":
            raw = bytes(b & 1 for b in raw)
        elif v.dtype.kind == "U":
            raw = np.array("é" * (v.dtype.itemsize // 4), v.dtype).tobytes()
        v[tuple(self.rng.randrange(n) for n in v.shape)] = np.frombuffer(
            raw, v.dtype)[0]
        self.model[k] = state(v)
        self.mon.ev("view_writes")

    def op_block(self, k):
        """the block itself, unfetched"""
        h = self.h()
        how = self.rng.choice([
            lambda: h.get(k, fetch=False), lambda: h.get(k, None, False),
            lambda: h.__getitem__(k, fetch=False),
            lambda: h.__getitem__(k, False, self.rng.random() < 0.5),
            lambda: h.get(k, fetch=False, copy=True)])
        if k not in self.model:
            self.mon.check(h.get(k, h, fetch=False) is h,
                           "default for an absent block", key=k)
            return
        block, m = how(), self.model[k]
        self.mon.check(isinstance(block, SharedMemory) and
                       block.name == h.address(k), "the block of a key",
                       got=block, key=k)
        self.mon.check(block.buf.tobytes().startswith(m[2]),
                       "bytes in the block of a key", key=k)
        block.close()
        self.mon.ev("unfetched_blocks")

    def op_del(self, k):
        h = self.h()
        if k in self.model:
            del h[k]
            self.orphan(k)
            del self.model[k]
            self.mon.ev("deletions")
        else:
            self.mon.raises(KeyError, lambda: h.__delitem__(k),
                            "deletion of an absent key", key=k)

    def op_gone(self, k):
        """the array's block is removed behind the paper's back"""
        if k not in self.model:
            return
        h, default = self.h(), object()
        delete_block(h.address(k))
        self.orphan(k)
        h = self.h()
        self.mon.raises(KeyError, lambda: self.rng.choice([
            lambda: h[k], lambda: h.__getitem__(k, copy=False),
            lambda: h.__getitem__(k, fetch=True)])(),
            "reading an array that is gone", key=k)
        self.mon.check(h.get(k, default) is default and h.get(k) is None,
                       "get of an array that is gone", key=k)
        if self.rng.random() < 0.5:
            self.mon.raises(KeyError, lambda: h.__delitem__(k),
                            "deleting an array that is gone", key=k)
        self.mon.ev("arrays_gone")
        self.op_set(k)

    def op_clear(self, _k):
        self.h().clear()
        for k in list(self.model):
            self.orphan(k)
        self.model.clear()
        self.mon.ev("clears")

    def op_forget(self, _k):
        """let go of a handle, or of a view"""
        if self.views and self.rng.random() < 0.3:
            self.views.pop(self.rng.randrange(len(self.views)))
            self.mon.ev("views_forgotten")
        elif len(self.handles) > 1:
            self.handles.pop(self.rng.randrange(len(self.handles)))
            self.mon.ev("handles_forgotten")

    def op_list(self, _k):
        h = self.h()
        want = {str(k): v for k, v in self.model.items()}
        for listing in (h.keys(), h.update_index(), list(h.iterkeys())):
            self.mon.eq(sorted(listing), sorted(want), "key listing",
                        log=self.log[-10:])
        items, values = list(h.iteritems()), list(h.itervalues())
        self.mon.eq(sorted(k for k, _ in items), sorted(want),
                    "keys of the item listing")
        self.mon.check(len(values) == len(items), "number of listed values")
        for (k, a), b in zip(items, values):
            self.array_is(a, want[k], "item listing", key=k)
            self.array_is(b, want[k], "value listing", key=k)
        self.mon.ev("listings")

    def op_dump(self, k):
        if k not in self.model:
            return
        h = self.h()
        if self.rng.random() < 0.3:
            before = set(os.listdir("."))
            h.dump(k)
            new = set(os.listdir(".")) - before
            self.mon.check(len(new) == 1, "dump makes one file", new=new)
            fn = new.pop()
        else:
            fn = "dumped.bin"
            with open(fn, "wb") as f:
                f.write(b"older" * self.rng.choice([0, 3000]))
            h.dump(k, fn)
        with open(fn, "rb") as f:
            got = f.read()
        os.unlink(fn)
        self.mon.check(got == self.model[k][2],
                       "dumped bytes are not the elements", key=k,
                       got=got[:100], want=show(self.model[k]))
        self.mon.ev("dumps")

    def op_reserved(self, _k):
        h = self.h()
        k = self.rng.choice(["index", "index_lock", "index_count", "indexes"])
        self.mon.raises(KeyError, lambda: self.rng.choice([
            lambda: h.__setitem__(k, np.arange(3)), lambda: h[k],
            lambda: h.__delitem__(k)])(), "reserved key accepted", key=k)
        self.mon.ev("reserved_keys")

    def op_impossible(self, _k):
        """keys that cannot be part of a block's name"""
        m, h, v = self.mon, self.h(), np.arange(3)
        k = self.rng.choice(["k" * 300, "a/b", "/", "n\0l", "\ud800", "",
                             "é" * 130])
        try:
            self.rng.choice([lambda: h.__setitem__(k, v),
                             lambda: h.set(k, v, exists_ok=False)])()
        except Exception:
            m.ev("impossible_keys")
            return
        self.array_is(h[k], state(v), "array read", key=k)
        del h[k]

    OPS = (["set"] * 6 + ["same_size"] * 3 + ["set_refusing"] * 3
           + ["get"] * 3 + ["copy", "view", "view", "write", "write"]
           + ["del"] * 3 + ["forget"] * 2 + ["list", "dump", "clear", "reserved",
                                                "gone", "impossible", "block",
                                                "block"])

    def step(self):
        name, k = self.rng.choice(self.OPS), self.rng.choice(self.keys)
        self.log.append((name, k, self.model[k][:2] if k in self.model
                         else None))
        getattr(self, f"op_{name}")(k)
        self.mon.ev("operations")
        self.agree()


def w_histories(mon, rng):
    shmtrace.untrack()
    prefix = shmtrace.fresh()
    try:
        s = Session(mon, rng, prefix, gen.keys(rng, rng.randint(1, 4)),
                    ({"no_lockout": True} if rng.random() < 0.3 else {})
                    | shmtrace.debugging(rng))
        if rng.random() < 0.2:
            s.keys[0] = 17
        if rng.random() < 0.3:
            # a key that is also the address of another one's array
            s.keys.append(f"{prefix}_{rng.choice(s.keys)}")
        s.open(create=True)
        s.agree()
        for _ in range(rng.randint(5, 25)):
            s.step()
        s.op_list(None)
        mon.sig([x[0] for x in s.log])
        mon.sample(f"{s.options} {s.log}")
    finally:
        shmtrace.sweep(prefix)


def w_dtypes(mon, rng):
    """every dtype in every dimensionality, by a second handle"""
    shmtrace.untrack()
    prefix = shmtrace.fresh()
    try:
        one, two = GridPaper(prefix, create=True), GridPaper(prefix)
        for dtype in gen.DTYPES:
            for dim in rng.sample(range(7), 3):
                a = gen.array(rng, [dtype])
                while a.ndim < dim:
                    a = a[np.newaxis] if rng.random() < 0.5 else a[..., None]
                one["a"] = a
                got = two["a"]
                mon.check(state(got) == state(a), "array differs",
                          got=show(state(got)), want=show(state(a)))
                view = two.get("a", copy=False)
                mon.check(state(view) == state(a), "view differs",
                          got=show(state(view)), want=show(state(a)))
                mon.ev("dtype_cases")
                mon.sig("dt", dtype, a.ndim)
    finally:
        shmtrace.sweep(prefix)


def w_processes(mon, rng):
    shmtrace.untrack()
    prefix = shmtrace.fresh()
    seeds = rng.random()
    try:
        opts = {"no_lockout": True} if rng.random() < 0.3 else {}
        first = Session(mon, rng, prefix, gen.keys(rng, 3), opts)
        first.open(create=True)

        def turn(k, inherited):
            def body():
                import random
                s = Session(mon, random.Random(f"{seeds}/{k}"), prefix,
                            first.keys, opts, dict(first.model),
                            first.handles if inherited else ())
                s.views = list(first.views) if inherited else []
                if not s.handles:
                    s.open()
                s.agree()
                for _ in range(s.rng.randint(2, 10)):
                    s.step()
                gone = {x[1] for x in s.log if x[0] not in ("write", "view")}
                return s.model, len(s.log), gone | {
                    k for k in s.keys if k not in s.model}
            return body
        for k in range(rng.randint(2, 4)):
            res = procs.run_procs([turn(k, rng.random() < 0.5)])
            if res[0][0] == "exc" and hasattr(res[0][1], "detail"):
                raise res[0][1]
            (model, n, touched), = procs.clean(mon, res, "other process")
            first.model = model
            first.views = [(q, v) for q, v in first.views
                           if q not in touched]
            first.log.append(("turn", k, n))
            # views of arrays that were not stored again stay live
            first.agree()
            mon.ev("process_turns")
            mon.ev("views_across_processes", len(first.views))
            for _ in range(rng.randint(0, 5)):
                first.step()
        mon.sig("proc", [x[0] for x in first.log])
    finally:
        shmtrace.sweep(prefix)


def w_large(mon, rng):
    shmtrace.untrack()
    prefix = shmtrace.fresh()
    try:
        one, two = GridPaper(prefix, create=True), GridPaper(prefix)
        for shape in ((1000, 999), (3,), (7, 100, 1000), (1 << 20,)):
            a = np.frombuffer(rng.randbytes(int(np.prod(shape)) * 4),
                              ">i4").reshape(shape)
            one["big"] = a
            mon.check(state(two["big"]) == state(a), "large array differs")
            mon.ev("large_arrays")
        n = rng.choice([60, 260])
        for i in range(n):
            one[f"{i}"] = np.full((i % 7,), i, dtype="<u2")
        for i in rng.sample(range(n), n // 2):
            del two[f"{i}"]
        left = [k for k in one.keys() if k != "big"]
        for k in left:
            mon.check((one[k] == int(k)).all() and len(one[k]) == int(k) % 7,
                      "wrong array under a key", key=k, got=one[k])
        mon.check(len(left) == n - n // 2, "number of keys", got=len(left))
        mon.sig("large", n)
    finally:
        shmtrace.sweep(prefix)


def w_standalone(mon, rng):
    """the array save / load pair on its own, vs a dict of arrays"""
    shmtrace.untrack()
    prefix = shmtrace.fresh()
    pairs = [numpy_mnemonic_factory() for _ in range(2)]
    names = [f"{prefix}{i}" for i in range(3)]
    model, told, blocks = {}, {}, []
    log = []
    try:
        for _ in range(rng.randint(4, 20)):
            name = rng.choice(names)
            save, load = rng.choice(pairs)
            what = rng.choice(["save", "save", "refuse", "load", "view",
                               "block", "delete"])
            log.append((what, name[len(prefix):]))
            if what in ("save", "refuse"):
                a = gen.array(rng)
                was = a.tobytes()
                keep = rng.random() < 0.4
                if what == "refuse" and name in model:
                    mon.raises(FileExistsError,
                               lambda: save(a, name, False, keep),
                               "overwriting refused")
                    mon.ev("standalone_refusals")
                    continue
                out = save(a, name, what == "save", keep)
                mon.eq(a.tobytes(), was, "the saved array was changed")
                mon.check(isinstance(out, tuple) and len(out) == 2,
                          "metadata and block", got=out)
                told[name], block = json.dumps(out[0]), out[1]
                mon.check((block is None) != keep, "block kept open or not",
                          keep=keep, got=block)
                if keep:
                    blocks.append(block)
                    mon.eq(block.name, name, "name of the open block")
                model[name] = state(a)
                mon.ev("standalone_saves")
            elif name not in model:
                if told.get(name) and what in ("load", "view"):
                    mon.raises(FileNotFoundError, lambda: load(told[name]),
                               "loading a deleted array")
            elif what == "delete":
                delete_block(name)
                del model[name]
            elif what == "block":
                block = load(told[name], False)
                mon.eq(bytes(block.buf[:len(model[name][2])]), model[name][2],
                       "content of the raw block", log=log)
                block.close()
            else:
                if what == "load" and rng.random() < 0.5:
                    got = load(told[name])
                else:
                    got = load(told[name], True, what == "load")
                a = got[0]
                mon.eq(state(a), model[name], f"array after {what}", log=log)
                if a.size and what == "view":
                    a[...] = np.zeros(1, a.dtype)[0]
                    model[name] = state(a)
                elif a.size:
                    a[...] = np.zeros(1, a.dtype)[0]
                mon.ev("standalone_loads")
                del a, got
            for n in model:
                mon.eq(state(load(told[n])[0]), model[n],
                       f"another array after {what}", name=n, log=log)
        mon.sig("alone", log)
    finally:
        for b in blocks:
            b.close()
        shmtrace.sweep(prefix)


CHECK = Check(
    "C04",
    [
        Workload(w_histories, 900, 30000,
                 {"operations": 3000, "sets": 500, "gets": 100, "copies": 50,
                  "views": 80, "view_writes": 40, "deletions": 80,
                  "refusals": 60, "listings": 50, "dumps": 20, "clears": 20,
                  "orphans": 50, "handles_forgotten": 50,
                  "unfetched_blocks": 50}),
        Workload(w_dtypes, 16, 400, {"dtype_cases": 300}),
        Workload(w_processes, 60, 2000, {"process_turns": 50}),
        Workload(w_large, 6, 60, {"large_arrays": 4}),
        Workload(w_standalone, 300, 9000,
                 {"standalone_saves": 500, "standalone_loads": 300,
                  "standalone_refusals": 30}),
    ],
    rule="a case is a random history over 1-4 keys through up to 4 handles "
         "(also across processes), every array, copy and live view compared "
         "after each operation; distinct = operation sequences and (dtype, "
         "dimensions, size class) of stored arrays",
    assumptions=["object and structured dtypes are out of scope",
                 "live views are judged until their key is stored again "
                 "(those of deleted keys go on to be judged)"],
)
