"""C13: tracker histories and log files vs a model of both"""
import functools
import json
import os
import sys
from collections import Counter, OrderedDict
from pathlib import Path

from dustgoggles.tracker import Tracker, TrivialTracker
from vmon import gen
from vmon.core import Check, Workload

OWN = {"target", "caller", "lineno", "trackcount"}


def line():
    """line number and name of the calling frame"""
    f = sys._getframe(1)
    return f.f_lineno, f.f_code.co_name


# ---- tracked targets: (object, name)
class Thing:
    def __call__(self):
        pass

    def method(self):
        pass

    def __str__(self):
        return "a thing"


class Named:
    __name__ = "given name"


def plain():
    pass


@functools.wraps(plain)
def wrapped():
    pass


PART = functools.partial(plain)
TARGETS = [
    (plain, "plain"), (wrapped, "plain"), (lambda: 0, "<lambda>"),
    (Thing, "Thing"), (Thing(), "a thing"), (Thing().method, "method"),
    (len, "len"), (PART, str(PART)), ("step name", "step name"), (3, "3"),
    (None, "None"), (Named(), "given name"), (json, "json"), ("é\n", "é\n"),
]



def target(rng):
    if rng.random() < 0.7:
        return rng.choice(TARGETS)
    name = rng.choice([rng.choice(gen.NAMES), gen.text(rng), gen.text(rng, 80),
                       "long " * 100])
    roll = rng.random()
    if roll < 0.4:
        def f():
            pass
        f.__name__ = name
        return f, name
    if roll < 0.6:
        return name, name
    if roll < 0.7:
        return gen.StrSub(name), name
    if roll < 0.8:
        thing = Thing()
        thing.__name__ = name
        return thing, name
    thing = rng.choice([gen.integer(rng), gen.real(rng), gen.IntSub(5),
                        gen.FloatSub(0.5), gen.Color.RED, gen.Level.LOW, 0,
                        (), "", [], {}, False, b"b", (1, "a"), frozenset(),
                        gen.blob(rng, 30), Path("a/b"), ...])
    return thing, str(thing)


# whether these are known by name or by text is left open
EITHER = {"Thing", "method"}


# ---- callers: each returns (line, function name) of the call it made
def direct(t, f, kw):
    t.track(f, **kw); return line()


def other_name_é(t, f, kw):
    return [t.track(f, **kw), line()][1]


def nested(t, f, kw):
    def inner():
        return t.track(f, **kw), line()
    return inner()[1]


def in_generator(t, f, kw):
    def steps():
        yield t.track(f, **kw), line()
    return next(steps())[1]


def in_class_body(t, f, kw):
    class Body:
        out = t.track(f, **kw), line()
    return Body.out[1]


def in_lambda(t, f, kw):
    return (lambda: (t.track(f, **kw), line()))()[1]


class Caller:
    def call(self, t, f, kw):
        for _ in range(1):
            t.track(f, **kw); where = line()
        return where


def in_compiled(t, f, kw):
    space = {"t": t, "f": f, "kw": kw, "line": line}
    exec("\n" * 40 + "t.track(f, **kw); out = line()", space)
    return space["out"]


def deeper(t, f, kw, n=30):
    if n:
        return deeper(t, f, kw, n - 1)
    t.track(f, **kw); return line()


def while_handling(t, f, kw):
    try:
        raise ValueError
    except ValueError:
        t.track(f, **kw); return line()


CALLERS = [direct, other_name_é, nested, in_generator, in_class_body,
           in_lambda, Caller().call, in_compiled, deeper, while_handling]


def metadata(rng):
    out = {}
    for _ in range(rng.choice([0, 0, 1, 1, 2, 4])):
        k = rng.choice(["a", "b", "kind", "step", "note", "History", "name",
                        "init_timestamp", "é", "log", gen.text(rng),
                        rng.choice(gen.NAMES)])
        if k in OWN or k in ("func", "self", "history"):
            continue
        roll = rng.random()
        if roll < 0.7:
            out[k] = gen.json_value(rng, 3)
        elif roll < 0.85:
            out[k] = rng.choice([(1, 2), {1: "a"}, [()],
                                 {1: 2, "a": {None: 1, "b": 2}}, True, "\ud800",
                                 0, 0.0, "", [], {}, False, None,
                                 gen.IntSub(gen.integer(rng)),
                                 gen.FloatSub(gen.real(rng)),
                                 gen.StrSub(gen.text(rng)), gen.Level.HIGH,
                                 OrderedDict(b=1, a=2), Counter("text"),
                                 gen.Point(1, [2]), list(range(300)),
                                 {str(i): i for i in range(70)},
                                 {n: n for n in gen.NAMES}])
        else:
            out[k] = "x" * rng.choice([1, 1, 4095, 4095, 70000])
            break
    return out


def unserializable(rng):
    loop = []
    loop.append(loop)
    return rng.choice([
        object(), {1, 2}, b"bytes", 1j, {(1, 2): 3}, loop, plain, Path("x"),
        {"ok": [{"deep": {"not": object()}}]}, 10 ** 5000,
    ])


class Model:
    def __init__(self, t):
        self.t = t
        self.history, self.meta, self.n, self.paused = [], {}, 0, False
        self.identity = {"name": t.log["name"],
                         "init_timestamp": t.log["init_timestamp"]}


class Logs:
    """trackers and the files they write"""

    def __init__(self, mon, rng):
        self.mon, self.rng = mon, rng
        self.dir = Path("logs", "x") if rng.random() < 0.2 else Path("logs")
        self.dir.parent.mkdir(exist_ok=True)
        self.files, self.trackers, self.trail = {}, [], []

    def make(self, name=None, identifier=None):
        kw = {"outdir": self.dir}
        if name is not None or self.rng.random() < 0.5:
            kw["name"] = name
        if identifier is not None:
            kw["identifier"] = identifier
        t = Tracker(**kw)
        m = Model(t)
        self.mon.check(self.dir.resolve() in t.outpath.resolve().parents,
                       "log file is outside of the directory asked for",
                       got=t.outpath)
        self.mon.eq(m.identity["name"], name, "name of a tracker")
        self.files.setdefault(str(t.outpath), None)
        self.trackers.append(m)
        return m

    def agree(self, everything=True):
        self.mon.eq(sorted(str(p) for p in self.dir.iterdir()),
                    sorted(p for p, v in self.files.items() if v is not None),
                    "log files that exist", trail=self.trail[-6:])
        for m in self.trackers:
            self.mon.eq(m.t.history, m.history, "history",
                        trail=self.trail[-6:])
            self.mon.check(m.t.paused is m.paused, "paused state")
        for path, want in self.files.items():
            if want is None:
                continue
            text = Path(path).read_bytes()
            try:
                # constants like NaN are no JSON
                got = json.loads(text.decode("utf-8"), parse_constant=float)
            except ValueError as ex:
                self.mon.fail(f"log file is not valid JSON: {ex}",
                              text=text[-300:], trail=self.trail[-6:])
            self.mon.check(type(got) is list, "log is no list", got=text[:80])
            self.mon.eq(len(got), len(want), "number of dumps in the log",
                        trail=self.trail[-6:])
            for g, (identity, history) in zip(got, want):
                self.mon.eq({k: g.get(k) for k in identity}, identity,
                            "identity in the log")
                self.mon.eq(g.get("history"), history, "history in the log",
                            trail=self.trail[-6:])
            self.mon.ev("log_files_parsed")
            self.mon.ev("log_elements_checked", len(want))

    def op_track(self, m, extra=None):
        for _ in range(self.rng.choice([1, 1, 2, 5])):
            func, name = target(self.rng)
            kw = metadata(self.rng) if extra is None else extra
            lineno, caller = self.rng.choice(CALLERS)(m.t, func, kw)
            m.n += 1
            m.history.append({"target": name, "caller": caller,
                              "lineno": lineno, "trackcount": m.n}
                             | m.meta | kw)
            self.mon.ev("tracks")
            got = m.t.history[-1] if m.t.history else None
            self.mon.check(type(got) is dict, "no record", got=got)
            if name in EITHER and got.get("target") == str(func):
                m.history[-1]["target"] = str(func)
            # the order of the fields of a record is free
            self.mon.eq({k: got[k] for k in m.history[-1] if k in got},
                        m.history[-1], "record", trail=self.trail[-6:])
            self.mon.eq(set(got), set(m.history[-1]), "fields of a record")
            m.history[-1] = got

    def op_meta(self, m):
        kw = metadata(self.rng)
        m.t.set_metadata(**kw)
        m.meta = m.meta | kw
        self.mon.ev("metadata")

    def op_pause(self, m):
        m.t.paused = m.paused = self.rng.random() < 0.4
        self.mon.ev("pauses" if m.paused else "resumes")

    def op_dump(self, m):
        before = {p: Path(p).read_bytes() for p, v in self.files.items()
                  if v is not None}
        try:
            now = json.loads(json.dumps(m.history))
        except (TypeError, ValueError):
            now = None
        if m.paused:
            m.t.dump()
            self.mon.ev("paused_dumps")
        elif now is None:
            try:
                m.t.dump()
            except Exception:
                self.mon.ev("refused_dumps")
            else:
                self.mon.fail("unserializable metadata were dumped")
        else:
            m.t.dump()
            path = str(m.t.outpath)
            self.files[path] = (self.files[path] or []) + [(m.identity, now)]
            self.mon.ev("dumps")
            return
        after = {str(p): p.read_bytes() for p in self.dir.iterdir()}
        self.mon.eq(after == before, True,
                    "a dump that should write nothing changed a file")

    def op_clear(self, m):
        m.t.clear()
        m.history, m.n = [], 0
        self.files[str(m.t.outpath)] = None
        self.mon.ev("clears")

    def op_poison(self, m):
        self.op_track(m, {"bad": unserializable(self.rng)})
        self.op_dump(m)
        if self.rng.random() < 0.7:
            # get rid of it
            if self.rng.random() < 0.5:
                self.op_clear(m)
            else:
                m.t.history[:] = m.history = [
                    r for r in m.history if "bad" not in r]

    def run(self, n):
        ops = ["track", "track", "track", "meta", "pause", "dump", "dump",
               "clear", "poison"]
        for _ in range(n):
            m = self.rng.choice(self.trackers)
            op = self.rng.choice(ops)
            self.trail.append(op)
            getattr(self, f"op_{op}")(m)
            self.agree()


NAMES = [None, "t", "pipeline", "a b", "é", "a.b", "T", "x" * 60]
# (no path separators)
MORE = [n for n in gen.NAMES + ["x" * 200, " ", ".", "..", "-", "~", "*", "$HOME",
                                "%s", "\n", "日本語", "log.json", "0"]
        if "/" not in n and "\0" not in n]


def w_one(mon, rng):
    logs = Logs(mon, rng)
    name = rng.choice(NAMES if rng.random() < 0.6 else MORE)
    m = logs.make(name, rng.choice([None, None, "id", "2026", "",
                                    rng.choice(MORE)[:40]]))
    if rng.random() < 0.2:
        # fails as long as these are set
        m.t.set_metadata(sticky=object)
        m.meta = {"sticky": object}
    mon.eq(m.t.history, [], "initial history")
    logs.agree()
    logs.run(rng.randint(1, 30))
    mon.sig(logs.trail)
    mon.sample(f"{name}: {logs.trail}")


def w_many(mon, rng):
    """several trackers, some of them writing the same file"""
    logs = Logs(mon, rng)
    for _ in range(rng.randint(2, 4)):
        logs.make(rng.choice(NAMES[:3]), rng.choice([None, "id"]))
        mon.ev("shared_files", len(logs.trackers) > len(logs.files))
        if rng.random() < 0.5:
            logs.run(rng.randint(1, 8))
    logs.run(rng.randint(2, 25))
    mon.sig("many", logs.trail)


def w_long(mon, rng):
    logs = Logs(mon, rng)
    m = logs.make("long")
    n = gen.size(rng, range(50, 150), 0.06, (1100, 2100, 5000, 9000))
    for i in range(n):
        m.t.track(plain, i=i); where = line()
        m.n += 1
        m.history.append({"target": "plain", "caller": where[1],
                          "lineno": where[0], "trackcount": m.n, "i": i})
        if rng.random() < (0.4 if n < 200 else 0.001):
            logs.trail.append("dump")
            logs.op_dump(m)
    logs.agree()
    mon.sig("long", m.n)


def w_trivial(mon, rng):
    t = TrivialTracker()
    before = sorted(os.listdir("."))
    for _ in range(5):
        op = rng.choice(["track", "dump", "clear", "meta"])
        if op == "track":
            mon.eq(t.track(plain, **metadata(rng)), None, "track")
        elif op == "meta":
            mon.eq(t.set_metadata(**metadata(rng)), None, "set_metadata")
        else:
            mon.eq(getattr(t, op)(), None, op)
    mon.eq([t.history, t.log], [None, None], "state of a trivial tracker")
    mon.eq(sorted(os.listdir(".")), before, "files")


CHECK = Check(
    "C13",
    [
        Workload(w_one, 2000, 100000,
                 {"tracks": 10000, "dumps": 3000, "clears": 1500,
                  "paused_dumps": 300, "refused_dumps": 1000,
                  "log_elements_checked": 5000}),
        Workload(w_many, 800, 40000, {"shared_files": 300}),
        Workload(w_long, 40, 1500),
        Workload(w_trivial, 40, 200),
    ],
    rule="a case is a random sequence of track / set_metadata / pause / dump "
         "/ clear with targets of every kind, callers of every kind and "
         "hostile metadata; history and every log file are compared with a "
         "model after each operation; distinct = distinct sequences",
    assumptions=["metadata do not use the names of a record's own fields",
                 "no NaN or infinity in metadata (json writes them as "
                 "non-standard constants)"],
)
