"""C10: executing a composition applies its steps in order"""
from dustgoggles.composition import Composition
from vmon.compmodel import (
    MEANING, ODD, Model, World, build, gapless, insertable, random_insert,
    step_names
)
from vmon import gen
from vmon.core import Check, Workload


def start(mon, rng, inserts=True):
    w = World(mon, rng)
    m = Model(w)
    n = gen.size(rng, [1, 1, 2, 3, 4, 5, 7], 0.01, (12, 40, 130))
    names = step_names(rng, n) if rng.random() < 0.4 else range(n)
    for k in names:
        m.steps[k] = w.step()
    if inserts:
        for k in list(m.steps):
            if m.steps[k].inserts_ok and rng.random() < 0.5:
                for _ in range(rng.randint(1, 3)):
                    put_insert(w, m, k)
                if rng.random() < 0.1:
                    # more than ten positions
                    n = len(m.steps[k].pre) + rng.randint(8, 13)
                    many = {i: w.value() for i in rng.sample(range(n), n)}
                    many.update((i, v) for i, v in m.inserts.get(
                        k, {}).items() if isinstance(i, str))
                    m.inserts[k] = many
                    w.mon.ev("long_argument_lists")
    if rng.random() < 0.2:
        m.inserts["absent"] = {0: 1, "a": 2}
    return w, m


def put_insert(w, m, k, real=None):
    key = random_insert(w, m, k)
    old = dict(m.inserts.get(k, {}))
    m.inserts.setdefault(k, {})[key] = v = w.value()
    if not gapless(m, k):
        m.inserts[k] = old
        return
    if real is not None:
        real.add_insert(k, key, v)
        w.mon.ev("inserts_added")


def outcome(mon, w, m, how, signal):
    del w.calls[:], w.want[:]
    want = list(m.run(signal))
    got, results = how()
    mon.eq(w.calls, w.want, "steps called with other arguments, in another "
           "order, or not exactly once", steps=describe(m),
           inserts=m.inserts)
    mon.eq(got, want[-1], "result", steps=describe(m), inserts=m.inserts)
    if results is not None:
        mon.eq(results, want, "successive intermediate results",
               steps=describe(m))
    for s in m.steps.values():
        s.unchanged(mon)
    mon.ev("executions")
    mon.ev("step_calls", len(w.calls))


def describe(m):
    return [(k, s.kind, s.pre, s.prekw) for k, s in m.steps.items()]


def run_once(mon, w, m, c):
    rng = w.rng
    signal = rng.choice(["sig", "", None, 0, 5, (1,), "signal" * 3, ODD[1],
                         rng.choice(MEANING), gen.rich(rng)])
    how = rng.randrange(5)
    if how == 0:
        outcome(mon, w, m, lambda: (c.execute(signal), None), signal)
    elif how == 1:
        outcome(mon, w, m, lambda: (c(signal), None), signal)
    elif how == 2:
        def nothing():
            if rng.random() < 0.5:
                return rng.choice([c, c.execute])(), None
            out = list(c.itercall())
            return out[-1], out
        outcome(mon, w, m, nothing, None)
    else:
        def it():
            out = list(c.itercall(signal))
            return out[-1], out
        outcome(mon, w, m, it, signal)


def w_programs(mon, rng):
    w, m = start(mon, rng)
    c = build(w, m)
    mon.eq(c.index, tuple(m.steps), "index of the steps")
    for _ in range(rng.choice([1, 1, 2, 3])):
        run_once(mon, w, m, c)
    mon.sig([(s.kind, len(s.pre), sorted(s.prekw), sorted(
        map(str, m.inserts.get(k, {})))) for k, s in m.steps.items()])
    mon.sample(f"{describe(m)} inserts {m.inserts}")


def w_edits(mon, rng):
    """steps and inserts are added, replaced and reindexed between runs"""
    w, m = start(mon, rng)
    c = build(w, m)
    trail = []
    for _ in range(rng.randint(2, 10)):
        what = rng.choice(["run", "run", "add", "replace", "reindex",
                           "insert", "insert", "partial_iter",
                           "single", "index"])
        trail.append(what)
        if what == "run":
            run_once(mon, w, m, c)
        elif what == "add" and len(m.steps) < 9:
            s = w.step()
            name = rng.choice([None, None, "new", 20, 0, "zz",
                               step_names(rng, 1)[0]])
            old = m.steps.get(len(m.steps) + 1 if name is None else name)
            trial = m.steps | {len(m.steps) + 1 if name is None else name: s}
            if not ok(m, trial):
                continue
            c.add_step(s.obj, name) if name is not None or \
                rng.random() < .5 else c.add_step(s.obj)
            m.add_step(s, name)
            mon.ev("edits")
        elif what == "replace":
            k, s = rng.choice(list(m.steps)), w.step()
            if ok(m, m.steps | {k: s}):
                c.add_step(s.obj, k)
                m.steps[k] = s
                mon.ev("edits")
        elif what == "reindex":
            if ok(m, dict(enumerate(m.steps.values()))):
                c.reindex()
                m.reindex()
                mon.eq(c.index, tuple(m.steps), "index after reindexing")
                mon.ev("edits")
        elif what == "insert":
            k = rng.choice(list(m.steps))
            if insertable(m, k):
                put_insert(w, m, k, c)
        elif what == "single":
            # one step of it, on its own
            k, state = rng.choice(list(m.steps)), w.value()
            del w.calls[:], w.want[:]
            want = m.steps[k].meaning(*m.steps[k].arguments(
                state, m.inserts.get(k, {})))
            mon.eq(c.call_step(k, state), want, "result of a single step",
                   step=k, steps=describe(m))
            mon.eq(w.calls, w.want, "calls of a single step")
            mon.ev("single_steps")
        elif what == "index":
            mon.eq(c.index, tuple(m.steps), "index of the steps")
            mon.eq({k for k in c.insert_index if c.inserts[k]},
                   {k for k in m.inserts if m.inserts[k]},
                   "index of the inserts")
            mon.eq(c.send_index, (), "index of the sends")
            if all(hasattr(s.obj, "__name__") for s in m.steps.values()):
                mon.eq(c.function_names,
                       [s.obj.__name__ for s in m.steps.values()],
                       "names of the steps' functions")
        elif what == "partial_iter":
            # an abandoned stepwise iteration leaves nothing behind
            n = rng.randint(1, len(m.steps))
            del w.calls[:], w.want[:]
            it, want = c.itercall("half"), m.run("half")
            for _ in range(n):
                mon.eq(next(it), next(want), "intermediate result")
            mon.eq(w.calls, w.want, "calls of a partial iteration")
            it.close()
            want.close()
    run_once(mon, w, m, c)
    mon.sig(trail, [s.kind for s in m.steps.values()])


def ok(m, steps):
    """all inserts fit these steps"""
    trial = Model(m.world)
    trial.steps, trial.inserts = steps, m.inserts
    return all(gapless(trial, k) and (s.inserts_ok or not m.inserts.get(k))
               for k, s in steps.items())


def w_sequences(mon, rng):
    """inserts as a sequence; several compositions sharing their steps"""
    w, m = start(mon, rng, inserts=False)
    m.reindex()
    m.inserts.clear()
    for k in m.steps:
        m.inserts[k] = {}
        if m.steps[k].inserts_ok and rng.random() < 0.6:
            put_insert(w, m, k)
    steps = [s.obj for s in m.steps.values()]
    c1 = Composition(steps, inserts=[dict(v) for v in m.inserts.values()])
    plain = Model(w)
    plain.steps = dict(m.steps)
    c2 = Composition(steps)
    for _ in range(rng.randint(2, 4)):
        if rng.random() < 0.5:
            run_once(mon, w, m, c1)
        else:
            run_once(mon, w, plain, c2)
    mon.ev("shared_steps", len(steps))
    mon.sig("seq", [s.kind for s in m.steps.values()])
    if rng.random() < 0.1:
        mon.eq(Composition()(w), w, "the empty composition is the identity")


CHECK = Check(
    "C10",
    [
        Workload(w_programs, 6000, 300000,
                 {"executions": 4000, "step_calls": 8000,
                  "long_argument_lists": 300}),
        Workload(w_edits, 3000, 150000, {"edits": 2000, "single_steps": 500,
                                         "inserts_added": 500}),
        Workload(w_sequences, 1500, 60000, {"shared_steps": 500}),
    ],
    rule="a case is a random composition (1-9 steps of 14 kinds of callables, "
         "pre-bound arguments, inserts), run and edited; every call and its "
         "arguments compared with a reference interpreter; distinct = "
         "distinct (step kinds, pre-binding and insert shapes, edit trails)",
    assumptions=["integer inserts leave no gap above the signal's position"],
)
