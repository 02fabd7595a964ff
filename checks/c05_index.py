"""C05: shared indexes vs a model of keys, slots and metadata"""
import json

from dustgoggles.codex.implements import MetaTagIndex, TagIndex
from vmon import gen, procs, shmtrace
from vmon.core import Check, Workload, short


def index_key(rng):
    roll = rng.random()
    if roll < 0.5:
        return gen.key(rng)
    if roll < 0.6:
        return rng.choice(["/", "a/b", "//", "\x00", "a\x00", "a\x00b", "\n",
                           "index", "index_0", " ", "name", "0_name_0"])
    if roll < 0.7:
        return rng.choice("ab") * rng.choice([1, 255, 256, 4096, 5000])
    return gen.text(rng) or "x"


def index_keys(rng, n):
    out = []
    if n > 1 and rng.random() < 0.2:
        out += rng.choice(gen.ALIKE)
    while len(out) < n:
        k = index_key(rng)
        if k and k not in out:
            out.append(k)
    return out


class Session:
    def __init__(self, mon, rng, name, keys, meta, options, model=None,
                 handles=()):
        self.mon, self.rng, self.name, self.keys = mon, rng, name, keys
        self.meta, self.options = meta, options
        self.cls = MetaTagIndex if meta else TagIndex
        self.model = {} if model is None else model  # key -> metadata
        self.handles = list(handles)
        self.log = []

    def open(self, create=False):
        opts = self.options
        if self.rng.random() < 0.1:
            # handles need not agree on whether to lock
            opts = {**opts, "no_lockout": self.rng.random() < 0.5}
        self.handles.append(self.cls(self.name, create=create, **opts))
        return self.handles[-1]

    def h(self):
        if len(self.handles) < 4 and self.rng.random() < 0.08:
            self.open()
        return self.rng.choice(self.handles)

    def last(self):
        return short(self.log[-1], 120) if self.log else "opening"

    def agree(self):
        m, h = self.mon, self.rng.choice(self.handles)
        kw = {"log": self.log[-10:]}
        m.ev("model_comparisons")
        listed = h.update()
        m.eq(sorted(listed), sorted(self.model),
             f"listed keys differ after {self.last()}", **kw)
        slots = {k: h.check(k) for k in self.model}
        m.check(all(type(v) is int for v in slots.values()),
                f"present key without slot after {self.last()}", got=slots)
        m.eq(sorted(slots.values()), list(range(len(self.model))),
             f"slots are not 0..n-1 after {self.last()}", **kw)
        for k, slot in slots.items():
            m.eq(listed[slot], k,
                 f"slot is not where the key is listed, after {self.last()}",
                 listed=listed, slots=slots, **kw)
        for k in self.keys:
            if k not in self.model:
                m.check(h.check(k) is None,
                        f"absent key has a slot after {self.last()}", key=k,
                        **kw)
        if not self.meta:
            return
        other = self.rng.choice(self.handles)
        m.eq(h.keys(), listed, "keys() and update() differ", **kw)
        items = other.items()
        m.eq([k for k, _ in items], listed, "items() lists other keys", **kw)
        values = h.values()
        m.eq(len(values), len(items), "values() and items() differ", **kw)
        for (k, v), w in zip(items, values):
            m.eq(self.loaded(v), self.model[k],
                 f"metadata of the key in items() after {self.last()}",
                 key=k, **kw)
            m.eq(self.loaded(w), self.model[k],
                 f"metadata of the key in values() after {self.last()}",
                 key=k, **kw)
        for k in self.keys:
            if k not in self.model:
                m.raises(KeyError, lambda: h[k],
                         f"metadata of an absent key after {self.last()}",
                         key=k)
            elif self.model[k] is not None:
                m.eq(self.loaded(h[k]), self.model[k],
                     f"metadata differs after {self.last()}", key=k, **kw)

    @staticmethod
    def loaded(v):
        return json.loads(v) if isinstance(v, bytes) else v

    def metadata(self):
        v = gen.json_value(self.rng, 2)
        return {"m": v} if v is None or self.rng.random() < 0.5 else v

    def add(self, h, k, **kw):
        slot = self.rng.choice([lambda: h.add(k, **kw),
                                lambda: h.add(key=k, **kw)])()
        self.mon.eq(slot, h.check(k), "add reports another slot", key=k)

    def op_add(self, k):
        h = self.h()
        kw = self.rng.choice([{}, {"exists_ok": True}])
        if self.meta and self.rng.random() < 0.7:
            v = self.metadata()
            self.add(h, k, value=v, **kw)
            self.model[k] = v
        else:
            self.add(h, k, **kw)
            self.model.setdefault(k, None)
        self.mon.ev("adds")

    def op_add_refusing(self, k):
        h = self.h()
        v = self.metadata() if self.meta and self.rng.random() < .6 else None
        if k in self.model:
            self.mon.raises(FileExistsError,
                            lambda: h.add(k, v, exists_ok=False),
                            "re-adding refused but key present", key=k)
            self.mon.ev("refusals")
        else:
            h.add(k, v, exists_ok=False)
            self.model[k] = v
            self.mon.ev("adds")

    def op_remove(self, k):
        h = self.h()
        how = self.rng.choice([h.remove, h.__delitem__])
        if k in self.model:
            how(k)
            del self.model[k]
            self.mon.ev("removals")
        else:
            self.mon.raises(KeyError, lambda: how(k),
                            "removing an absent key", key=k)
            self.mon.ev("absent_removals")

    def op_readd(self, k):
        """remove, then add without metadata"""
        if k in self.model:
            self.h().remove(k)
            del self.model[k]
        self.agree()
        self.h().add(k)
        self.model[k] = None
        self.mon.ev("readds")

    def op_bad(self, k):
        h = self.h()
        how = self.rng.randrange(3)
        if how == 0:
            bad = "" if "" not in self.model else "\ud800"
        else:
            bad = "\ud800bad"
        if how < 2:
            self.mon.raises(Exception, lambda: h.add(bad),
                            "a key that cannot be stored", key=bad)
        elif self.meta:
            bad = self.rng.choice([{1, 2}, object(), [1, {2: {3}}], b"x"])
            self.mon.raises(Exception, lambda: h.add(k, bad),
                            "metadata that cannot be stored", key=k)
        else:
            bad = self.rng.choice([1, 0, "", {}, [1], {"a": 1}, False])
            self.mon.raises(ValueError, lambda: h.add(k, bad),
                            "metadata for an index that keeps none", key=k)
            self.mon.ev("refused_metadata")
        self.mon.ev("failed_adds")

    OPS = (["add"] * 6 + ["remove"] * 5 + ["add_refusing"] * 2
           + ["readd", "bad"])

    def step(self):
        name, k = self.rng.choice(self.OPS), self.rng.choice(self.keys)
        self.log.append((name, k, k in self.model))
        getattr(self, f"op_{name}")(k)
        self.mon.ev("operations")
        self.agree()


def options(rng):
    out = {"no_lockout": True} if rng.random() < 0.3 else {}
    return out | shmtrace.debugging(rng)


def w_histories(mon, rng):
    shmtrace.untrack()
    name = shmtrace.fresh()
    try:
        s = Session(mon, rng, name, index_keys(rng, rng.randint(2, 7)),
                    rng.random() < 0.6, options(rng))
        s.open(create=True)
        s.agree()
        for _ in range(rng.randint(8, 40)):
            s.step()
        mon.sig(s.meta, [x[0::2] for x in s.log])
        mon.sample(f"{s.cls.__name__} {s.options} {s.log}")
    finally:
        shmtrace.sweep(name)


def w_many(mon, rng):
    """counters and slots beyond one and two bytes' worth"""
    shmtrace.untrack()
    name = shmtrace.fresh()
    try:
        n = rng.choice([257, 300, 515, 700])
        keys = [f"k{i}" for i in range(n)]
        s = Session(mon, rng, name, keys, rng.random() < 0.6, options(rng))
        s.open(create=True)
        s.open()
        for i, k in enumerate(keys):
            v = {"n": i} if s.meta and rng.random() < 0.8 else None
            s.h().add(k, v)
            s.model[k] = v
        s.log.append(("filled", n))
        s.agree()
        for part in range(3):
            for k in rng.sample(sorted(s.model), len(s.model) // 3):
                s.h().remove(k)
                del s.model[k]
            s.log.append(("removed a third", part))
            s.agree()
            for k in rng.sample(keys, n // 5):
                v = {"again": part} if s.meta and rng.random() < .5 else None
                s.h().add(k, v)
                if v is not None or k not in s.model:
                    s.model[k] = v
            s.log.append(("added some", part))
            s.agree()
        mon.ev("many_keys", n)
        mon.sig("many", n, s.meta)
    finally:
        shmtrace.sweep(name)


def w_most(mon, rng):
    """more keys than two bytes can number (thorough)"""
    shmtrace.untrack()
    name = shmtrace.fresh()
    try:
        n = 2100 + rng.randint(0, 60)
        if mon.tier != "quick":
            n = 65540 + rng.randint(0, 60)
        keys = [f"k{i}" for i in range(n)]
        s = Session(mon, rng, name, keys[:300] + keys[-300:], False,
                    {"no_lockout": True})
        s.open(create=True)
        h = s.open()
        for i, k in enumerate(keys):
            h.add(k)
            s.model[k] = None
        s.log.append(("filled", n))
        s.agree()
        for k in rng.sample(keys, 40) + keys[-30:]:
            if k in s.model:
                s.h().remove(k)
                del s.model[k]
        s.log.append(("removed some", n))
        s.agree()
        mon.ev("most_keys", n)
        mon.sig("most", n)
    finally:
        shmtrace.sweep(name)


def w_processes(mon, rng):
    shmtrace.untrack()
    name = shmtrace.fresh()
    seeds = rng.random()
    try:
        keys, meta, opts = index_keys(rng, 5), rng.random() < .6, options(rng)
        first = Session(mon, rng, name, keys, meta, opts)
        first.open(create=True)

        def turn(k, inherited):
            def body():
                import random
                s = Session(mon, random.Random(f"{seeds}/{k}"), name, keys,
                            meta, opts, dict(first.model),
                            first.handles if inherited else ())
                if not s.handles:
                    s.open()
                s.agree()
                for _ in range(s.rng.randint(2, 12)):
                    s.step()
                return s.model, len(s.log)
            return body
        for k in range(rng.randint(2, 4)):
            res = procs.run_procs([turn(k, rng.random() < 0.4)])
            if res[0][0] == "exc" and hasattr(res[0][1], "detail"):
                raise res[0][1]
            (first.model, n), = procs.clean(mon, res, "other process")
            first.log.append(("turn", k, n))
            first.agree()
            mon.ev("process_turns")
            for _ in range(rng.randint(0, 4)):
                first.step()
        mon.sig("proc", [x[0::2] for x in first.log])
    finally:
        shmtrace.sweep(name)


def w_two(mon, rng):
    """indexes of different names are independent"""
    shmtrace.untrack()
    name = shmtrace.fresh()
    try:
        keys, two = index_keys(rng, 4), []
        for n in (name, name + rng.choice(["z", "1", "_", "_k", "_index"])):
            s = Session(mon, rng, n, keys, rng.random() < 0.6, options(rng))
            s.open(create=True)
            two.append(s)
        for _ in range(rng.randint(10, 30)):
            rng.choice(two).step()
            for s in two:
                s.agree()
        mon.ev("pairs")
        mon.sig("pair", [x[0::2] for s in two for x in s.log])
    finally:
        shmtrace.sweep(name)


CHECK = Check(
    "C05",
    [
        Workload(w_histories, 1200, 40000,
                 {"operations": 3000, "adds": 500, "removals": 200,
                  "refusals": 50, "absent_removals": 50, "readds": 50,
                  "failed_adds": 30}),
        Workload(w_many, 8, 80, {"many_keys": 257}),
        Workload(w_most, 1, 1, {"most_keys": 2000}, cpu=500, wall=700),
        Workload(w_processes, 60, 2000, {"process_turns": 50}),
        Workload(w_two, 60, 2000, {"pairs": 20}),
    ],
    rule="a case is a random history over 2-7 (or hundreds of) keys through "
         "up to 4 handles, listing, slots and metadata compared with the "
         "model after each operation; distinct = distinct sequences of "
         "(operation, key present or not)",
    assumptions=["text keys (bytes keys alias their text)"],
)
