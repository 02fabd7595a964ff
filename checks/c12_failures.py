"""C12: failures surface, and trackers tell the truth"""
import traceback
from pathlib import Path

from dustgoggles.composition import Composition
from dustgoggles.tracker import Tracker
from vmon import gen
from vmon.compmodel import KEYWORDS, Model, World, build, gapless, step_names
from vmon.core import Check, Workload

KINDS = ["def", "partial", "instance", "method", "dynamic", "curry", "lambda",
         "builtin", "wrapped"]


class Custom(Exception):
    def __init__(self, a, b):
        super().__init__(a, b)
        self.a = a


class Quiet(Exception):
    """falsy and without message"""

    def __bool__(self):
        return False


def exceptions(rng):
    exc = raised_kind(rng)
    if rng.random() < 0.25:
        # with a history
        try:
            [][rng.randint(1, 3)]
        except IndexError as ex:
            exc.__context__ = ex
            if rng.random() < 0.5:
                exc.__cause__ = ex
    return exc


def raised_kind(rng):
    return rng.choice([
        lambda: ValueError("bad value"), lambda: KeyError("missing"),
        lambda: TypeError("type"), lambda: IndexError(3),
        lambda: ZeroDivisionError(), lambda: Custom(1, "two"),
        lambda: Quiet(), lambda: AttributeError("é\n\"quoted\""),
        lambda: OSError(2, "gone"), lambda: MemoryError("no"),
        lambda: RuntimeError("r" * 300), lambda: AssertionError(),
        lambda: FileNotFoundError("f"), lambda: UnicodeDecodeError(
            "utf-8", b"\xff", 0, 1, "why"), lambda: NotImplementedError(),
    ])()


class Pipe:
    def __init__(self, w, n):
        self.w, self.key = w, f"pipe{n}"
        self.label = None

    def __call__(self, x):
        self.w.calls.append((self.key, (x,), {}))
        if self.key in self.w.bombs:
            raise self.w.bombs[self.key]

    def model(self, x):
        self.w.want.append((self.key, (x,), {}))
        if self.key in self.w.bombs:
            raise self.w.bombs[self.key]


def start(mon, rng, kinds=KINDS):
    w = World(mon, rng)
    m = Model(w)
    n = gen.size(rng, [1, 2, 3, 3, 5], 0.01, (12, 40, 130))
    for k in (step_names(rng, n) if rng.random() < 0.4 else range(n)):
        m.steps[k] = w.step(kinds)
    for k in list(m.steps):
        if rng.random() < 0.2 and m.steps[k].inserts_ok:
            m.inserts[k] = {rng.choice(["a", "a", "b"] + KEYWORDS): w.value()}
    return w, m


class Harness:
    """runs a composition and judges calls, outcome and tracker records"""

    def __init__(self, mon, w, m, c, tracker, optional):
        self.mon, self.w, self.m, self.c = mon, w, m, c
        self.tracker, self.optional = tracker, optional
        self.pipes = 0

    def add_pipe(self, name):
        self.pipes += 1
        p = Pipe(self.w, self.pipes)
        self.c.add_send(name, pipe=p)
        self.m.sends.setdefault(name, []).append(p.model)
        return p

    def run(self, signal, arm=None):
        """arm: None, or the key of the step or pipe that is to raise"""
        mon, w, m = self.mon, self.w, self.m
        del w.calls[:], w.want[:]
        w.bombs.clear()
        exc = None
        if arm is not None:
            exc = w.bombs[arm] = self.exception
        # what the model says
        done, failing, order = [], None, list(m.steps)
        state, raised = None, None
        try:
            for state in m.run(signal):
                done.append(order[len(done)])
        except BaseException as ex:
            raised = ex
            failing = order[len(done)]
        if exc is not None:
            mon.check(raised is exc, "model: the bomb did not go off")
        before = list(self.tracker.history) if self.tracker else None
        got, caught = None, None
        try:
            got = self.rng_call(signal)
        except BaseException as ex:
            caught = ex
        if exc is not None:
            exc_tb = exc.__traceback__
        mon.eq(w.calls, w.want, "steps or pipes called after the failure, or "
               "not before it", failing=failing, arm=arm)
        passes = raised is not None and not (
            self.optional and isinstance(raised, Exception))
        if passes:
            mon.check(caught is raised, "the very exception must reach the "
                      "caller", caught=caught, got=got, raised=raised)
            mon.ev("exceptions_surfaced")
        else:
            mon.check(caught is None, "an exception escaped", caught=caught,
                      traceback="".join(traceback.format_exception(caught))
                      if caught is not None else "")
            mon.eq(got, None if raised is not None else state,
                   "result of the execution", raised=raised)
            if raised is not None:
                mon.ev("exceptions_contained")
        if self.tracker is not None:
            self.records(before, done, failing, raised, arm,
                         exc_tb if exc is not None else None)
        w.bombs.clear()
        mon.ev("executions")

    def rng_call(self, signal):
        return (self.c.execute(signal) if self.w.rng.random() < 0.6
                else self.c(signal))

    def records(self, before, done, failing, raised, arm, tb):
        mon, m = self.mon, self.m
        history = self.tracker.history
        mon.eq(history[:len(before)], before, "earlier records changed")
        new = [dict(r) for r in history[len(before):]]
        log = {"new": new, "done": done, "failing": failing, "arm": arm,
               "steps": {k: s.label for k, s in m.steps.items()}}
        mon.eq([r["trackcount"] for r in new],
               list(range(self.count + 1, self.count + 1 + len(new))),
               "track counts", **log)
        self.count += len(new)
        n = len(done)
        reported = raised is not None and isinstance(raised, Exception)
        # a step whose pipe raises may or may not count as completed
        if arm is not None and arm.startswith("pipe") and len(new) > n + reported:
            mon.eq(new[n].get("step"), failing, "record of the step whose "
                   "pipe raises", **log)
            mon.check(new[n]["target"] in m.steps[failing].label,
                      "record of the step whose pipe raises", **log)
            del new[n]
        mon.check(len(new) == n + reported, "number of records", want=n +
                  reported, **log)
        for r, name in zip(new, done):
            mon.eq(r.get("step"), name, "step of a record", **log)
            mon.check(r["target"] in m.steps[name].label,
                      "function of a record", **log)
            mon.check("exception" not in r, "a completed step is recorded as "
                      "failure", **log)
            mon.ev("step_records")
        if not reported:
            return
        r = new[-1]
        mon.check(r["target"] in m.steps[failing].label,
                  "function of the failure record", **log)
        text = str(r["exception"])
        mon.check(type(raised).__name__ in text and str(raised) in text,
                  "failure record lacks type or message", text=text,
                  raised=raised)
        mon.check(len(r["lineno"]) == len(r["filename"]) == len(r["name"])
                  >= 2, "traceback of the failure record", record=r)
        # the innermost frames, as the exception's own traceback has them
        frames = []
        if tb is not None:
            while tb is not None:
                frames.append((tb.tb_lineno, tb.tb_frame.f_code.co_filename))
                tb = tb.tb_next
            mine = list(zip(r["lineno"], r["filename"]))
            mon.eq(mine, frames[-len(mine):],
                   "frames of the failure record")
        mon.ev("failure_records")


def harness(mon, rng, w, m, tracked=None):
    tracker = None
    optional = rng.random() < 0.4
    roll = rng.random() if tracked is None else 0.0
    if roll < 0.7:
        tracker = Tracker(name="t", outdir=Path("logs"))
    late = tracker is not None and rng.random() < 0.2
    options = {} if late or tracker is None else {"tracker": tracker}
    if rng.random() < 0.3:
        options["name"] = rng.choice(["a name", "", "t2"] + gen.NAMES)
    # sends that are there before the tracker is
    early, sends = [], {}
    if rng.random() < 0.3:
        for i in range(rng.randint(1, 3)):
            k = rng.choice(list(m.steps))
            p = Pipe(w, -i)
            early.append(p)
            sends.setdefault(k, []).append((p, None, None))
            m.sends.setdefault(k, []).append(p.model)
    c = build(w, m, optional=optional, sends=sends or None, **options)
    if late:
        tracker = attach_late(c)
        mon.check(tracker is c.tracker and tracker is not None, "no tracker")
    elif tracker is not None:
        mon.eq(tracker.name, c.name, "tracker of another name")
    if tracker is not None and rng.random() < 0.2:
        # dumps are paused, records are not
        tracker.paused = True
    if "name" in options:
        mon.eq(c.name, options["name"], "name of the composition")
    h = Harness(mon, w, m, c, tracker, optional)
    h.count = 0
    h.early = early
    return h


def attach_late(c):
    """Composition.track(), with the tracker's files kept in scratch"""
    init = Tracker.__init__

    def scratch_init(self, name=None, identifier="", outdir=None):
        init(self, name, identifier, Path("logs"))
    Tracker.__init__ = scratch_init
    try:
        c.track()
    finally:
        Tracker.__init__ = init
    return c.tracker


def targets(h):
    """keys that can be armed: symbolic steps and pipes that will run"""
    return [s.key for s in h.m.steps.values() if s.kind not in
            ("builtin", "builtin_partial")]


def w_failures(mon, rng):
    w, m = start(mon, rng)
    h = harness(mon, rng, w, m)
    pipes = {p.key: p for p in h.early}
    for _ in range(rng.choice([0, 0, 1, 2])):
        p = h.add_pipe(rng.choice(list(m.steps)))
        pipes[p.key] = p
    trail = []
    for _ in range(rng.randint(1, 5)):
        pool = targets(h) + list(pipes)
        arm = rng.choice(pool) if pool and rng.random() < 0.6 else None
        h.exception = exceptions(rng)
        if arm is not None and rng.random() < 0.08:
            h.exception = rng.choice([KeyboardInterrupt("k"),
                                      KeyboardInterrupt(), SystemExit(3)])
            mon.ev("interrupts")
        h.run(rng.choice(["sig", None, 0, gen.rich(rng)]), arm)
        trail.append((arm and arm[0], type(h.exception).__name__))
    mon.sig([s.kind for s in m.steps.values()], h.optional,
            h.tracker is None, trail)
    mon.sample(f"steps {[(k, s.kind) for k, s in m.steps.items()]} optional "
               f"{h.optional} tracked {h.tracker is not None}: {trail}")


def w_edits(mon, rng):
    """tracked compositions whose steps are added, replaced, reindexed"""
    w, m = start(mon, rng)
    h = harness(mon, rng, w, m, tracked=True)
    trail = []
    for _ in range(rng.randint(2, 8)):
        what = rng.choice(["run", "run", "fail", "add", "replace", "reindex",
                           "track"])
        trail.append(what)
        if what in ("add", "replace"):
            s = w.step(KINDS)
            name = (rng.choice([None, "new", 50, step_names(rng, 1)[0]])
                    if what == "add"
                    else rng.choice(list(m.steps)))
            where = len(m.steps) + 1 if name is None else name
            if m.inserts.get(where) and not s.inserts_ok:
                continue
            h.c.add_step(s.obj, name)
            m.add_step(s, name)
            mon.ev("edits")
        elif what == "reindex":
            if any(m.inserts.get(i) and not s.inserts_ok
                   for i, s in enumerate(m.steps.values())):
                continue
            h.c.reindex()
            m.reindex()
            mon.ev("edits")
        elif what == "track":
            # already tracked: nothing changes
            attach_late(h.c)
            mon.check(h.c.tracker is h.tracker, "tracker replaced")
        else:
            pool = targets(h)
            h.exception = exceptions(rng)
            h.run("sig", rng.choice(pool) if what == "fail" and pool
                  else None)
    h.run("last")
    mon.sig([s.kind for s in m.steps.values()], trail)


def ident(x):
    return x


def strict(x, *, flag=None):
    return x


def w_arguments(mon, rng):
    """errors that arise from arguments and send targets"""
    ran = []

    def last(x):
        ran.append(x)
        return x
    tracker = Tracker(name="t", outdir=Path("logs")) \
        if rng.random() < 0.7 else None
    optional = rng.random() < 0.5
    kind = rng.choice(["kw", "pos", "slot", "dict", "write"])
    c = Composition({"a": ident, "b": strict, "c": last}, optional=optional,
                    tracker=tracker)
    completed = 1
    if kind == "kw":
        c.add_insert("b", "unknown", 1)
        error = TypeError
    elif kind == "pos":
        c.add_insert("b", 0, 1)
        c.add_insert("b", 2, 1)
        error = TypeError
    elif kind == "slot":
        c.add_send("b", target=[0], pointer=5)
        error = IndexError
    elif kind == "dict":
        c.add_send("b", target={}, pointer=[])
        error = TypeError
    else:
        class W:
            def write(self, _):
                raise OSError("full")
        c.add_send("b", target=W())
        error = OSError
    if optional:
        mon.check(c.execute(3) is None, "optional composition must give None")
    else:
        mon.raises(error, lambda: c.execute(3), f"{kind} error must surface")
    mon.eq(ran, [], "a later step ran")
    if tracker is not None:
        new = [dict(r) for r in tracker.history]
        if kind in ("slot", "dict", "write") and len(new) == 3:
            mon.eq((new[1].get("step"), new[1]["target"]), ("b", "strict"),
                   "record of the step whose send fails")
            del new[1]
        mon.eq([(r.get("step"), r["target"]) for r in new[:-1]],
               [("a", "ident")], "records of completed steps")
        mon.eq(new[-1]["target"], "strict", "failure record")
        mon.check(error.__name__ in str(new[-1].get("exception")),
                  "failure record names another exception", rec=new[-1])
        mon.ev("failure_records")
    mon.ev("argument_errors")
    mon.sig("arg", kind, optional, tracker is None)


CHECK = Check(
    "C12",
    [
        Workload(w_failures, 5000, 200000,
                 {"executions": 5000, "exceptions_surfaced": 800,
                  "exceptions_contained": 500, "failure_records": 800,
                  "step_records": 3000, "interrupts": 40}),
        Workload(w_edits, 2500, 100000, {"edits": 2000}),
        Workload(w_arguments, 300, 3000, {"argument_errors": 100}),
    ],
    rule="a case is a random composition run several times, with faults "
         "injected into steps, pipes, arguments and send targets; calls, "
         "exceptions and tracker records compared with a reference "
         "interpreter; distinct = distinct (step kinds, fault positions and "
         "exception types, options)",
    assumptions=["whether a step counts as completed when its own pipe raises "
                 "is left open", "StopIteration is left out (generators turn "
                 "it into RuntimeError)"],
)
