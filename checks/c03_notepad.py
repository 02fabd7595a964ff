"""C03: a notepad vs one dict, through several handles and processes"""
import copy
import json
import os
import pickle
import zlib

from dustgoggles.codex import codecs
from dustgoggles.codex.implements import FakeIndex, MetaTagIndex, Notepad
from dustgoggles.codex.memutilz import delete_block
from vmon import gen, procs, shmtrace
from vmon.core import Check, Workload, short

def raw_codec_factory():
    """the value is its own encoding"""
    return bytes, bytes


def zip_codec_factory():
    encode, decode = codecs.pickle_codec_factory()
    return (lambda value: zlib.compress(encode(value)),
            lambda blob: decode(zlib.decompress(blob)))


def raw_value(rng):
    return b"".join(rng.choice([b"\0", b"\0\0\0", b"\n", b"a", b"\xff\xfe",
                                b" ", b"\x80\x04N.", b"x" * 5000])
                    for _ in range(rng.choice([1, 1, 2, 3, 6])))


CODECS = {
    "pickle": (codecs.pickle_codec_factory, gen.picklable),
    "json": (codecs.json_codec_factory, gen.json_value),
    "ast": (codecs.ast_codec_factory, gen.literal),
    "raw": (raw_codec_factory, raw_value),
    "zip": (zip_codec_factory, gen.picklable),
}
UNPICKLABLE = [lambda: None, (x for x in ()), open]


class Unpicklable:
    def __init__(self, error=TypeError):
        self.error = error

    def __reduce__(self):
        raise self.error("will not be pickled")


def bottomless():
    """too deep to be pickled"""
    x = []
    for _ in range(100000):
        x = [x]
    return x


def value(mon, rng, make):
    roll = rng.random()
    if make is raw_value:
        return make(rng)
    if roll < 0.1:
        return None
    if roll < 0.14:
        return rng.choice([False, 0, "", [], {}])
    if roll < 0.2:
        return "v" * rng.choice([1, 4000, 4096, 5000, 70000])
    return make(rng)


class Session:
    """one process's view: handles on a notepad and the model dict"""

    def __init__(self, mon, rng, prefix, keys, options, codec, model=None,
                 handles=()):
        self.mon, self.rng, self.prefix, self.keys = mon, rng, prefix, keys
        self.options = options
        self.codec = codec
        self.factory, self.make = CODECS[codec]
        self.model = {} if model is None else model
        self.handles = list(handles)
        self.log, self.past = [], {}
        self.kept = []

    def open(self, create=False):
        opts = self.options
        if (self.rng.random() < 0.1 and
                opts.get("index_type") is not FakeIndex):
            # handles need not agree on whether to lock
            opts = {**opts, "no_lockout": self.rng.random() < 0.5}
        h = Notepad(self.prefix, create=create, codec_factory=self.factory,
                    update_on_init=self.rng.random() < 0.3, **opts)
        self.handles.append(h)
        return h

    def h(self):
        if len(self.handles) < 4 and self.rng.random() < 0.08:
            self.open()
            self.mon.ev("handles_opened")
        return self.rng.choice(self.handles)

    # --- model comparison
    def agree(self, full=True):
        m, h = self.mon, self.rng.choice(self.handles)
        m.ev("model_comparisons")
        if self.options.get("index_type") is not FakeIndex:
            listed = h.keys()
            m.eq(sorted(listed), sorted(map(str, self.model)),
                 f"listed keys differ from the dict after {self.last()}",
                 log=self.log[-10:])
            if self.rng.random() < 0.1:
                for text in (str(h), repr(h)):
                    m.check(all(repr(k) in text for k in listed),
                            "keys in the printed form", text=text)
        if not full:
            return
        for k in self.keys:
            if k in self.model:
                m.eq(h[k], self.model[k],
                     f"value differs after {self.last()}", key=k,
                     log=self.log[-10:])
            else:
                m.raises(KeyError, lambda: h[k],
                         f"absent key found after {self.last()}", key=k,
                         log=self.log[-10:])

    def last(self):
        return short(self.log[-1]) if self.log else "opening"

    # --- operations
    def op_set(self, k):
        v = value(self.mon, self.rng, self.make)
        h = self.h()
        if self.rng.random() < 0.15:
            # later the same object is stored with another content
            h[k] = v
            gen.alter(self.rng, v)
            self.mon.ev("altered_objects")
        elif k in self.past and self.rng.random() < 0.2:
            # back to what it was once
            v = copy.deepcopy(self.rng.choice(self.past[k]))
            self.mon.ev("returns")
        keep = copy.deepcopy(v)
        self.past.setdefault(k, []).append(keep)
        how = self.rng.randrange(4)
        if self.options.get("index_type") is MetaTagIndex:
            how = self.rng.randrange(5)
        if how == 4:
            meta = self.rng.choice([0, "", [], {}, False, 1, "m", {"a": 1}])
            self.rng.choice([lambda: h.set(k, v, meta),
                             lambda: h.set(k, v, meta=meta)])()
            self.mon.eq(json.loads(self.rng.choice(self.handles).index[k]),
                        meta, "metadata of a key", key=k)
            self.mon.ev("sets_with_metadata")
        elif how == 0:
            h[k] = v
        elif how == 1:
            h.set(k, v)
        elif how == 2:
            h.set(k, v, exists_ok=True)
        else:
            h.set(key=k, value=v)
        self.mon.eq(v, keep, "setting modified the value")
        # the stored value is independent of the object that was passed
        if isinstance(v, list):
            v.append("changed afterwards")
        elif type(v) is dict:
            v["changed afterwards"] = 1
        self.model[k] = keep
        self.mon.ev("sets")

    def op_set_refusing(self, k):
        v = value(self.mon, self.rng, self.make)
        h = self.h()
        if k in self.model:
            self.mon.raises(KeyError, lambda: h.set(k, v, exists_ok=False),
                            "overwriting refused but key present", key=k)
            self.mon.ev("refusals")
        else:
            h.set(k, copy.deepcopy(v), exists_ok=False)
            self.model[k] = v
            self.mon.ev("sets")

    def op_get(self, k):
        h = self.h()
        default = object()
        if k in self.model:
            got = self.rng.choice([
                lambda: h[k], lambda: h.get(k), lambda: h.get(k, default),
                lambda: h.get(k, default=3),
            ])()
            self.mon.eq(got, self.model[k], "value read", key=k)
            # a value that was read is the reader's own
            if isinstance(got, list):
                got.append("mine")
            elif type(got) is dict:
                got["mine"] = 1
            self.mon.ev("gets")
        else:
            self.mon.raises(KeyError, lambda: h[k], "absent key", key=k)
            self.mon.check(h.get(k) is None, "get of an absent key", key=k)
            default = self.rng.choice([default, default, len, Notepad, [],
                                       KeyError, lambda *_: None, 0, b""])
            self.mon.check(h.get(k, default) is default,
                           "get of an absent key ignores the default", key=k)
            self.mon.ev("absent_gets")

    def op_del(self, k):
        h = self.h()
        if k in self.model:
            del h[k]
            del self.model[k]
            self.mon.ev("deletions")
        else:
            self.mon.raises(KeyError, lambda: h.__delitem__(k),
                            "deletion of an absent key", key=k)

    def op_gone(self, k):
        """the value's block is removed behind the notepad's back"""
        if k not in self.model:
            return
        h, default = self.h(), object()
        delete_block(h.address(k))
        h = self.h()
        self.mon.raises(KeyError, lambda: h[k], "reading a value that is gone",
                        key=k)
        self.mon.check(h.get(k, default) is default and h.get(k) is None,
                       "get of a value that is gone", key=k)
        if self.rng.random() < 0.5:
            self.mon.raises(KeyError, lambda: h.__delitem__(k),
                            "deleting a value that is gone", key=k)
        self.mon.ev("values_gone")
        self.op_set(k)

    def op_clear(self, _k):
        if self.options.get("index_type") is FakeIndex:
            return
        self.h().clear()
        self.model.clear()
        self.mon.ev("clears")

    def op_list(self, _k):
        if self.options.get("index_type") is FakeIndex:
            return
        h = self.h()
        want = {str(k): v for k, v in self.model.items()}
        for listing in (h.keys(), h.update_index(), list(h.iterkeys())):
            self.mon.eq(sorted(listing), sorted(want), "key listing",
                        log=self.log[-10:])
        values = list(h.itervalues())
        items = list(h.iteritems())
        self.mon.eq(sorted(k for k, _ in items), sorted(want),
                    "keys of the item listing")
        for k, v in items:
            self.mon.eq(v, want[k], "item listing", key=k)
        self.mon.check(len(values) == len(want), "number of listed values",
                       got=values, want=want)
        for v, (k, _) in zip(values, items):
            self.mon.eq(v, want[k], "value listing (in key order)", key=k)
        self.mon.ev("listings")

    def op_dump(self, k):
        if k not in self.model:
            return
        h = self.h()
        if self.rng.random() < 0.3:
            before = set(os.listdir("."))
            h.dump(k)
            new = set(os.listdir(".")) - before
            self.mon.check(len(new) == 1, "dump makes one file", new=new)
            fn = new.pop()
        else:
            fn = "dumped.bin"
            with open(fn, "wb") as f:
                f.write(b"older content " * self.rng.choice([0, 1, 500]))
            h.dump(k, fn)
        with open(fn, "rb") as f:
            blob = f.read()
        os.unlink(fn)
        with open(f"/dev/shm/{h.address(k)}", "rb") as f:
            self.mon.eq(blob, f.read(), "dumped bytes are not the stored ones")
        self.mon.eq(self.h().get_raw(k), blob, "raw bytes of a key")
        self.mon.eq(self.factory()[1](blob), self.model[k], "dumped value")
        self.mon.ev("dumps")

    def op_bad_value(self, k):
        if self.codec != "pickle":
            return
        h = self.h()
        bad = self.rng.choice([
            lambda: UNPICKLABLE[0], Unpicklable, bottomless,
            lambda: {"deep": [Unpicklable()]}, lambda: UNPICKLABLE[1],
            lambda: Unpicklable(self.rng.choice([
                ValueError, KeyError, FileNotFoundError, RecursionError,
                AttributeError, MemoryError, StopIteration, OSError,
                IndexError, pickle.PicklingError]))])()
        ok = self.rng.random() < 0.6
        self.mon.raises(Exception, lambda: h.set(k, bad, exists_ok=ok),
                        "unpicklable value", key=k)
        self.mon.ev("failed_sets")

    def op_bad_key(self, _k):
        h = self.h()
        k = self.rng.choice(["index", "indexes", "index_lock", "index_count",
                             "index_key_0", "index_1", "index 7"])
        how = self.rng.randrange(5)
        if how == 0:
            self.mon.raises(KeyError, lambda: h.__setitem__(k, 1),
                            "reserved key set", key=k)
        elif how == 1:
            self.mon.raises(KeyError, lambda: h.set(k, 1, exists_ok=False),
                            "reserved key set", key=k)
        elif how == 2:
            self.mon.raises(KeyError, lambda: h[k], "reserved key read", key=k)
        elif how == 3:
            self.mon.check(h.get(k, self) is self, "reserved key got", key=k)
        else:
            self.mon.raises(KeyError, lambda: h.__delitem__(k),
                            "reserved key deleted", key=k)
        self.mon.ev("reserved_keys")

    def op_create_again(self, _k):
        if self.options.get("index_type") is FakeIndex:
            return
        self.mon.raises(FileExistsError, lambda: Notepad(
            self.prefix, create=True, **self.options),
            "creating a notepad that exists")
        self.mon.ev("recreations")

    def op_strange(self, k):
        """opening what does not exist"""
        if self.options.get("index_type") is FakeIndex:
            return
        self.mon.raises(FileNotFoundError, lambda: Notepad(
            self.prefix + "q", create=self.rng.choice([False, False]),
            **self.options), "opening a notepad that does not exist")

    def op_impossible(self, _k):
        """keys that cannot be part of a block's name"""
        if self.options.get("index_type") is FakeIndex:
            return
        m, h, v = self.mon, self.h(), [1, 2]
        k = self.rng.choice(["k" * 300, "a/b", "/", "n\0l", "\ud800", "",
                             "é" * 130])
        try:
            self.rng.choice([lambda: h.__setitem__(k, v),
                             lambda: h.set(k, v, exists_ok=False)])()
        except Exception:
            m.ev("impossible_keys")
            return
        m.eq(h[k], v, "value read", key=k)
        del h[k]

    OPS = (["set"] * 6 + ["get"] * 3 + ["del"] * 3 + ["set_refusing"] * 3
           + ["list"] * 2 + ["clear", "dump", "bad_value", "bad_key",
                             "create_again", "strange", "gone", "impossible"])

    def step(self, full=True):
        name, k = self.rng.choice(self.OPS), self.rng.choice(self.keys)
        self.log.append((name, k, k in self.model))
        getattr(self, f"op_{name}")(k)
        self.mon.ev("operations")
        self.agree(full)


def options(rng):
    out = {}
    if rng.random() < 0.3:
        out["no_lockout"] = True
    roll = rng.random()
    if roll < 0.12:
        out["index_type"] = MetaTagIndex
    elif roll < 0.18:
        out["index_type"] = FakeIndex
    return out | shmtrace.debugging(rng)


def some_keys(rng, n):
    keys = gen.keys(rng, n)
    if rng.random() < 0.3:
        keys[0] = rng.choice([0, 1, 7, -3, 255, 10 ** 20])
        keys = list({str(k): k for k in keys}.values())
    if rng.random() < 0.15:
        keys[-1] = "L" * rng.choice([100, 150, 200])
    return keys


def w_histories(mon, rng):
    shmtrace.untrack()
    prefix = shmtrace.fresh()
    try:
        codec = rng.choice(["pickle", "pickle", "pickle", "json", "ast",
                            "raw", "zip"])
        s = Session(mon, rng, prefix, some_keys(rng, rng.randint(1, 5)),
                    options(rng), codec)
        s.open(create=True)
        s.agree()
        for _ in range(rng.randint(5, 30)):
            s.step()
        s.op_list(None)
        mon.sig(codec, len(s.options), [x[0::2] for x in s.log])
        mon.sample(f"{codec} {s.options} {s.log}")
    finally:
        shmtrace.sweep(prefix)


def w_pair(mon, rng):
    """two notepads with similar prefixes do not see one another"""
    shmtrace.untrack()
    prefix = shmtrace.fresh()
    try:
        keys = some_keys(rng, 3)
        two = []
        for p in (prefix, prefix + rng.choice(["z", "1", ".", "-"])):
            s = Session(mon, rng, p, keys, options(rng), "pickle")
            s.open(create=True)
            two.append(s)
        for _ in range(rng.randint(10, 30)):
            rng.choice(two).step()
            for s in two:
                s.agree()
        mon.ev("pairs")
        mon.sig("pair", [x[0::2] for s in two for x in s.log])
    finally:
        shmtrace.sweep(prefix)


def w_processes(mon, rng):
    """the history is continued by one process after another"""
    shmtrace.untrack()
    prefix = shmtrace.fresh()
    seeds = rng.random()
    try:
        codec = rng.choice(["pickle", "json", "ast", "raw", "zip"])
        opts, keys = options(rng), some_keys(rng, 4)
        first = Session(mon, rng, prefix, keys, opts, codec)
        first.open(create=True)

        def turn(k, inherited):
            def body():
                import random
                r = random.Random(f"{seeds}/{k}")
                s = Session(mon, r, prefix, keys, opts, codec,
                            copy.deepcopy(first.model),
                            first.handles if inherited else ())
                if not s.handles:
                    s.open()
                s.agree()
                for _ in range(r.randint(2, 10)):
                    s.step()
                return s.model, s.log
            return body
        logs = []
        for k in range(rng.randint(2, 4)):
            res = procs.run_procs([turn(k, rng.random() < 0.4)])
            if res[0][0] == "exc" and hasattr(res[0][1], "detail"):
                raise res[0][1]
            (model, log), = procs.clean(mon, res, "other process")
            first.model = model
            first.log.append(("turn of another process", k, log[-5:]))
            first.agree()
            for _ in range(rng.randint(0, 4)):
                first.step()
            logs.append(len(log))
            mon.ev("process_turns")
        mon.sig("proc", [x[0::2] for x in first.log], logs)
    finally:
        shmtrace.sweep(prefix)


def w_many_keys(mon, rng):
    """hundreds of keys, so that every counter passes its byte boundaries"""
    shmtrace.untrack()
    prefix = shmtrace.fresh()
    try:
        n = rng.choice([130, 257, 300, 520])
        keys = [f"{i}" if i % 3 else f"key number {i}" for i in range(n)]
        s = Session(mon, rng, prefix, keys, {"no_lockout": rng.random() < 0.5},
                    "pickle")
        s.open(create=True)
        s.open()
        for k in rng.sample(keys, n):
            s.log.append(("set", k))
            s.h()[k] = s.model[k] = [k, rng.random()]
        s.agree()
        for _ in range(rng.randint(100, 300)):
            k = rng.choice(keys)
            rng.choice([s.op_set, s.op_del, s.op_del, s.op_get])(k)
            s.log.append(("..", k))
        s.agree()
        s.op_list(None)
        s.op_clear(None)
        s.agree()
        mon.ev("many_keys", n)
        mon.sig("many", n)
    finally:
        shmtrace.sweep(prefix)


def w_lifetimes(mon, rng):
    """create / close / create again; generated prefixes"""
    shmtrace.untrack()
    prefix = shmtrace.fresh()
    used = [prefix]
    try:
        for _ in range(rng.randint(2, 4)):
            s = Session(mon, rng, prefix, some_keys(rng, 3),
                        {"no_lockout": rng.random() < 0.3}, "pickle")
            mon.raises(FileNotFoundError, lambda: Notepad(prefix),
                       "opening a notepad that does not exist (any more)")
            s.open(create=True)
            mon.eq(s.handles[0].keys(), [], "keys of a new notepad")
            for _ in range(rng.randint(0, 8)):
                s.step()
            s.handles[0].close()
            mon.ev("lifetimes")
        auto = Notepad(create=True)
        used.append(f"{auto.prefix}_")
        auto["k"] = v = gen.picklable(rng)
        mon.eq(Notepad(auto.prefix)["k"], v, "value under a generated prefix")
        auto.close()
        mon.sig("life", len(s.log))
    finally:
        for p in used:
            shmtrace.sweep(p)


CHECK = Check(
    "C03",
    [
        Workload(w_histories, 2500, 50000,
                 {"operations": 3000, "sets": 500, "gets": 200,
                  "deletions": 100, "refusals": 80, "listings": 100,
                  "clears": 30, "dumps": 20, "failed_sets": 20,
                  "reserved_keys": 20, "absent_gets": 50}),
        Workload(w_pair, 80, 3000, {"pairs": 20}),
        Workload(w_processes, 70, 2500, {"process_turns": 50}),
        Workload(w_many_keys, 8, 80, {"many_keys": 130}),
        Workload(w_lifetimes, 60, 1500, {"lifetimes": 50}),
    ],
    rule="a case is a random history over 1-5 keys through up to 4 handles "
         "(also alternating between processes); after every operation the "
         "listing and every key are compared with the model dict; distinct = "
         "distinct sequences of (operation, key present or not)",
    assumptions=["keys are distinct as text and usable in a shared-memory "
                 "name (no slash, at most 200 bytes)",
                 "operations of different processes do not overlap (C07)"],
)
