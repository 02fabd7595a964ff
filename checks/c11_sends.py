"""C11: sends and captures deliver each step's output, and only observe"""
import copy
from collections import Counter, OrderedDict, defaultdict
from types import SimpleNamespace

from dustgoggles.composition import Composition
from vmon import gen
from vmon.compmodel import KEYWORDS, Model, Sink, World, build, gapless, step_names
from vmon.core import Check, Workload

KINDS = ["def", "partial", "instance", "method", "dynamic", "curry", "lambda"]


class Nothing:
    """a pipe that looks like there is none"""

    def __init__(self, func):
        self.func = func

    def __call__(self, x):
        return self.func(x)

    def __bool__(self):
        return False

    def __eq__(self, other):
        return other is None or other is self

    __hash__ = None


class Shelf(list):
    """a list of one's own"""


def stream(rng, log, name):
    """something with a write method, wherever it comes from"""
    sink = Sink(log, name)
    if rng.random() < 0.7:
        return sink, sink
    return SimpleNamespace(write=sink.write), sink


class Targets:
    """real targets and their models"""

    def __init__(self, w):
        self.w, self.rng = w, w.rng
        makers = [list, list, Shelf]
        self.lists = {n: self.rng.choice(makers)(v) for n, v in (
            ("L0", []), ("L1", [None, "x", 7]), ("L2", []))}
        makers = [dict, dict, OrderedDict, Counter,
                  lambda v: defaultdict(list, v)]
        self.dicts = {n: self.rng.choice(makers)(v) for n, v in (
            ("D0", {}), ("D1", {"old": 1}))}
        self.log, self.want_log = [], []
        both = {n: stream(self.rng, self.log, n) for n in ("S0", "S1")}
        self.sinks = {n: b[0] for n, b in both.items()}
        self.ends = {n: b[1] for n, b in both.items()}
        self.m_lists = {k: copy.copy(v) for k, v in self.lists.items()}
        self.m_dicts = {k: copy.copy(v) for k, v in self.dicts.items()}
        self.m_sinks = {"S0": [], "S1": []}
        self.pipes = 0

    def pipe(self):
        """(real, model) or (None, None)"""
        if self.rng.random() < 0.4:
            return None, None
        self.pipes += 1
        n = self.pipes
        returns = self.rng.choice(["text", "text", "none", "same", "zero",
                                   "rich"])
        thing = gen.rich(self.rng)

        def result(x):
            return {"text": f"p{n}({x})", "none": None, "same": x,
                    "zero": 0, "rich": thing}[returns]

        def real(x):
            self.log.append(("pipe", n, x))
            return result(x)

        def model(x):
            self.want_log.append(("pipe", n, x))
            return result(x)
        return Nothing(real) if self.rng.random() < 0.15 else real, model

    def agree(self, mon, when):
        mon.eq(self.log, self.want_log, f"pipe and write calls {when}")
        mon.eq(self.lists, self.m_lists, f"list targets {when}")
        mon.eq(self.dicts, self.m_dicts, f"dict targets {when}")
        mon.eq({k: s.got for k, s in self.ends.items()}, self.m_sinks,
               f"writable targets {when}")


def make_send(w, m, t, name):
    """(real (pipe, target, pointer), model callable, label)"""
    rng = w.rng
    kind = rng.choice(["append", "append", "slot", "dict", "sink", "insert",
                       "insert", "pipe"])
    real_pipe, pipe = t.pipe()
    if kind == "pipe":
        while real_pipe is None:
            real_pipe, pipe = t.pipe()
        return (real_pipe, None, None), pipe, kind
    through = pipe or (lambda x: x)
    if kind == "append":
        n = rng.choice(["L0", "L1", "L2"])
        return ((real_pipe, t.lists[n], None),
                lambda x: t.m_lists[n].append(through(x)), kind)
    if kind == "slot":
        i = rng.choice([0, 1, 2, -1])

        def put(x):
            t.m_lists["L1"][i] = through(x)
        return (real_pipe, t.lists["L1"], i), put, kind
    if kind == "dict":
        n, k = rng.choice(["D0", "D1"]), rng.choice(
            ["k", 0, "old", None, "", gen.rich_key(rng)])

        def put(x):
            t.m_dicts[n][k] = through(x)
        return (real_pipe, t.dicts[n], k), put, kind
    if kind == "sink":
        n = rng.choice(["S0", "S1"])

        def put(x):
            y = through(x)
            t.want_log.append(("write", n))
            t.m_sinks[n].append(y)
        return (real_pipe, t.sinks[n], None), put, kind
    # an insert of an earlier, the same, a later or an absent step
    # (targets of inserts are named by text or number)
    where = rng.choice([k for k in m.steps if isinstance(k, (str, int))]
                       + ["absent", 99])
    pointer = rng.choice([0, 0, 1, "a", "b", rng.choice(KEYWORDS)])
    trial = Model(w)
    trial.steps = m.steps
    # whatever has been inserted when this fires, no gap may arise
    inserted = {0, 1} if pointer == 1 else {pointer}
    step = m.steps.get(where)
    if pointer == 1 and step is not None and len(step.pre) == 0:
        # position 1 follows the signal at 0 or an insert at 0
        inserted = {1}
    trial.inserts = {where: {k: 1 for k in inserted}}
    if not gapless(trial, where):
        pointer = "a"

    def put(x):
        m.inserts.setdefault(where, {})[pointer] = through(x)
    return (real_pipe, where, pointer), put, kind


def start(mon, rng):
    w = World(mon, rng)
    m = Model(w)
    n = gen.size(rng, [1, 2, 3, 3, 4, 6], 0.01, (12, 40, 130))
    for k in (step_names(rng, n) if rng.random() < 0.4 else range(n)):
        m.steps[k] = w.step(KINDS)
    return w, m, Targets(w)


def execute(mon, w, m, t, c, when):
    signal = w.rng.choice(["sig", None, 0, "", "another", gen.rich(w.rng)])
    del w.calls[:], w.want[:]
    real, model = c.itercall(signal), m.run(signal)
    if w.rng.random() < 0.5:
        # step by step: the targets are compared after each step
        for i, want in enumerate(model):
            got = next(real)
            mon.eq(got, want, f"signal after step {i} {when}")
            mon.eq(w.calls, w.want, f"arguments up to step {i} {when}")
            t.agree(mon, f"after step {i} {when}")
            mon.ev("steps_observed")
        mon.eq(list(real), [], "more steps than expected")
    else:
        want = list(model)[-1]
        mon.eq(c.execute(signal), want, f"result {when}")
        mon.eq(w.calls, w.want, f"step arguments {when}")
        t.agree(mon, when)
        mon.ev("steps_observed", len(m.steps))
    mon.ev("executions")
    mon.ev("pipe_calls", sum(x[0] == "pipe" for x in t.log))


def attach(mon, w, m, t, c, name):
    real, model, kind = make_send(w, m, t, name)
    pipe, target, pointer = real
    if pipe is None and pointer is None and w.rng.random() < 0.5:
        c.add_send(name, target=target)
    elif w.rng.random() < 0.5:
        c.add_send(name, pipe=pipe, target=target, pointer=pointer)
    else:
        c.add_send(name, pipe, target, pointer)
    m.sends.setdefault(name, []).append(model)
    mon.ev(f"sends_{kind}")
    return kind


def w_sends(mon, rng):
    w, m, t = start(mon, rng)
    c = build(w, m)
    kinds = []
    crowded = rng.choice(list(m.steps)) if rng.random() < 0.06 else None
    for _ in range(gen.size(rng, [0, 1, 2, 4, 8], 0.03, (12, 35, 140))):
        name = rng.choice(list(m.steps) + ["absent"])
        if crowded is not None and rng.random() < 0.9:
            name = crowded
        kinds.append((name, attach(mon, w, m, t, c, name)))
    if crowded is not None:
        for _ in range(rng.choice([9, 17, 33])):
            kinds.append((crowded, attach(mon, w, m, t, c, crowded)))
        mon.ev("crowded_steps")
    trail = []
    for i in range(gen.size(rng, range(1, 6), 0.01, (12, 35))):
        execute(mon, w, m, t, c, f"in execution {i}")
        what = rng.choice(["", "attach", "replace", "add", "reindex"])
        trail.append(what)
        if what == "attach":
            name = rng.choice(list(m.steps) + ["absent"])
            kinds.append((name, attach(mon, w, m, t, c, name)))
        elif what in ("replace", "add"):
            s = w.step(["def", "instance", "lambda"])
            name = (rng.choice(list(m.steps)) if what == "replace" else
                    rng.choice([None, "absent", 99]))
            trial = Model(w)
            new = len(m.steps) + 1 if name is None else name
            trial.steps, trial.inserts = m.steps | {new: s}, m.inserts
            if gapless(trial, new):
                c.add_step(s.obj, name)
                m.add_step(s, name)
        elif what == "reindex":
            trial = Model(w)
            trial.steps = dict(enumerate(m.steps.values()))
            trial.inserts = m.inserts
            if all(gapless(trial, k) for k in trial.steps):
                c.reindex()
                m.reindex()
    mon.sig([s.kind for s in m.steps.values()], kinds, trail)
    mon.sample(f"steps {list(m.steps)}, sends {kinds}, then {trail}")


def w_constructor(mon, rng):
    """sends given to the constructor, as mapping or as sequence"""
    w, m, t = start(mon, rng)
    as_sequence = rng.random() < 0.4
    if as_sequence:
        m.reindex()
    sends = {}
    kinds = []
    for k in m.steps:
        sends[k] = []
        for _ in range(gen.size(rng, [0, 1, 1, 3], 0.02, (9, 17, 33))):
            real, model, kind = make_send(w, m, t, k)
            sends[k].append(real)
            m.sends.setdefault(k, []).append(model)
            kinds.append((k, kind))
            mon.ev(f"sends_{kind}")
        if rng.random() < 0.1:
            # to nowhere
            sends[k].insert(rng.randint(0, len(sends[k])), (None, None, None))
            kinds.append((k, "none"))
    if not as_sequence and rng.random() < 0.3:
        sends["absent"] = [(t.log.append, t.lists["L0"], None)]
    c = build(w, m, sends=list(sends.values()) if as_sequence else sends)
    for i in range(rng.randint(1, 3)):
        execute(mon, w, m, t, c, f"in execution {i}")
    mon.sig("ctor", as_sequence, kinds)


def w_captures(mon, rng):
    w, m, t = start(mon, rng)
    c = build(w, m)
    kinds, mine = [], {}
    for _ in range(rng.choice([0, 0, 1, 3])):
        name = rng.choice(list(m.steps))
        kinds.append(attach(mon, w, m, t, c, name))
    c.add_captures()
    captured = set(m.steps)
    mon.eq(set(c.captures), captured, "captured steps")
    for name in rng.sample(sorted(m.steps, key=str),
                           rng.randint(0, len(m.steps))):
        mine[name] = rng.choice([[None], ["old", 2]])
        c.add_capture(name, mine[name])
    if rng.random() < 0.3:
        c.add_capture(rng.choice(list(m.steps)), None)
    latest = {}
    for k in m.steps:
        latest[k] = None

        def keep(x, k=k):
            latest[k] = x
        m.sends.setdefault(k, []).append(keep)
    edited = False
    for i in range(rng.randint(1, 4)):
        del w.calls[:], w.want[:]
        signal = rng.choice(["sig", "other", None])
        if rng.random() < 0.3:
            # only some of the steps run
            n = rng.randint(1, len(m.steps))
            real, model = c.itercall(signal), m.run(signal)
            for _ in range(n):
                mon.eq(next(real), next(model), "signal")
            real.close(), model.close()
        else:
            mon.eq(c.execute(signal), m.execute(signal), "result")
        t.agree(mon, f"in execution {i}")
        for k in captured:
            mon.eq(c.captures[k][0], latest[k],
                   "a capture does not hold the step's latest output",
                   step=k)
            mon.check(len(c.captures[k]) == 1, "capture has grown")
            mon.ev("captures_checked")
        for k, target in mine.items():
            if latest[k] is not None:
                mon.eq(target[0], latest[k], "an own capture target")
                mon.eq(target[1:], [2] if len(target) > 1 else [],
                       "rest of an own capture target")
        if rng.random() < 0.3:
            k = rng.choice(sorted(captured, key=str))
            s = w.step(["def", "instance"])
            trial = Model(w)
            trial.steps, trial.inserts = m.steps | {k: s}, m.inserts
            if gapless(trial, k):
                c.add_step(s.obj, k)
                m.steps[k] = s
                edited = True
        if rng.random() < 0.15:
            # captures are asked for again, with a step that has none so far
            s = w.step(["def", "instance"])
            name = f"later {i}"
            c.add_step(s.obj, name)
            m.steps[name] = s
            c.add_captures()
            captured = set(m.steps)
            mon.eq(set(c.captures), captured, "steps captured since")
            for k in m.steps:
                latest[k] = None

                def keep(x, k=k):
                    latest[k] = x
                m.sends.setdefault(k, []).append(keep)
            mon.ev("captures_renewed")
    mon.sig("cap", [s.kind for s in m.steps.values()], kinds, edited)


def w_invalid(mon, rng):
    c = Composition([str, repr])
    ran = []
    mon.raises(ValueError, lambda: c.add_send(0),
               "a send with neither pipe nor target")
    c.add_send("absent", pipe=ran.append)
    mon.eq(c.execute(1), "'1'", "result")
    mon.eq(ran, [], "a send of an absent step fired")
    c.add_send(1, pipe=ran.append)
    mon.eq(c.execute(1), "'1'", "result")
    mon.eq(ran, ["'1'"], "send of a present step")
    # a slot that the list does not have
    held = list(range(rng.choice([0, 0, 1, 2])))
    before, slot = list(held), rng.choice([len(held), len(held) + 2])
    c.add_send(rng.choice([0, 1]), target=held, pointer=slot)
    mon.raises(IndexError, lambda: c.execute(1), "a slot that is not there")
    mon.eq(held, before, "a list without the slot sent to")
    mon.sig("invalid")


CHECK = Check(
    "C11",
    [
        Workload(w_sends, 6000, 250000,
                 {"steps_observed": 10000, "pipe_calls": 2000,
                  "sends_append": 500, "sends_slot": 300, "sends_dict": 300,
                  "sends_sink": 300, "sends_insert": 500,
                  "sends_pipe": 300}),
        Workload(w_constructor, 2500, 100000),
        Workload(w_captures, 2500, 100000, {"captures_checked": 1000}),
        Workload(w_invalid, 60, 400),
    ],
    rule="a case is a random composition with random sends and captures, run "
         "1-5 times with edits in between; contents of all targets and the "
         "order of pipe and write calls compared with a reference interpreter "
         "after every step; distinct = distinct (step kinds, sends, edits)",
    assumptions=["integer pointers of inserts leave no gap"],
)
