"""
generator and reference interpreter of Compositions (C10-C12).

steps are symbolic: a call is logged with its arguments and returns a text that
identifies step and arguments, so equality of results means equality of all
calls leading to them.
"""
import functools
import hashlib
import numbers
import operator

from cytoolz import curry, excepts

from dustgoggles.composition import Composition
from dustgoggles.dynamic import Dynamic
from vmon import gen


def digest(name, args, kwargs):
    text = repr((name, args, sorted(kwargs.items())))
    return f"{name}#{hashlib.blake2b(text.encode(), digest_size=6).hexdigest()}"


class Odd:
    """a result that can only be handed on: no copies, comparisons or truth"""

    def no(self, *_):
        raise TypeError("an odd object was examined")
    __bool__ = __len__ = __iter__ = __next__ = __copy__ = __deepcopy__ = no
    __reduce_ex__ = __hash__ = __contains__ = __getitem__ = no

    def __init__(self, name):
        self.name = name

    def compare(self, _):
        # as arrays do: elementwise
        return ELEMENTWISE
    __eq__ = __ne__ = __lt__ = __gt__ = __le__ = __ge__ = compare

    def __repr__(self):
        return self.name


# of keyword arguments
KEYWORDS = ["a", "b", "state", "step", "args", "kwargs", "func", "key", "name",
            "x.y", "two words", "é", "__class__", "keywords", "", "UPPER",
            "class", "0", "1", "line\nbreak", "long" * 30, "step_name",
            "signal", gen.StrSub("sub")]
ELEMENTWISE = Odd("elementwise")
ODD = [Odd("odd"), Odd("odder")]
# results that mean something elsewhere
MEANING = [NotImplemented, Ellipsis, StopIteration("s"), ValueError("result"),
           KeyError, type, iter(()), "None", b"", float("inf"), {}, [[]]]


class Step:
    """a step and what calling it means"""

    def __init__(self, obj, kind, key, pre=(), prekw=None, meaning=None,
                 inserts_ok=True):
        self.obj, self.kind, self.key = obj, kind, key
        self.pre, self.prekw = list(pre), dict(prekw or {})
        self.meaning = meaning
        self.inserts_ok = inserts_ok
        if hasattr(obj, "keywords"):
            self.frozen = (tuple(obj.args), dict(obj.keywords))
        else:
            self.frozen = None

    @property
    def label(self):
        """how a tracker may name this step's function"""
        return {str(self.obj), getattr(self.obj, "__name__", str(self.obj))}

    def arguments(self, state, insert):
        pos = dict(enumerate(self.pre))
        pos.update((k, v) for k, v in insert.items() if isinstance(k, int))
        kw = dict(self.prekw)
        kw.update((k, v) for k, v in insert.items() if isinstance(k, str))
        i = 0
        while i in pos:
            i += 1
        pos[i] = state
        return tuple(pos[k] for k in sorted(pos)), kw

    def unchanged(self, mon):
        if self.frozen is not None:
            mon.eq((tuple(self.obj.args), dict(self.obj.keywords)),
                   self.frozen, "a partially-applied step was changed")


class World:
    """call log shared by all steps of a case"""

    def __init__(self, mon, rng):
        self.mon, self.rng = mon, rng
        self.calls = []      # what really happened
        self.want = []       # what the model says
        self.serial = 0
        self.bombs = {}      # step key -> exception to raise
        self.plain = {}      # step key -> the same result for any arguments

    def record(self, key, args, kwargs):
        self.calls.append((key, args, dict(kwargs)))
        if key in self.bombs:
            raise self.bombs[key]
        return self.result(key, args, kwargs)

    def result(self, key, args, kwargs):
        if key in self.plain:
            return self.plain[key]
        return digest(key, args, kwargs)

    def mean(self, key):
        def meaning(args, kwargs):
            self.want.append((key, args, dict(kwargs)))
            if key in self.bombs:
                raise self.bombs[key]
            return self.result(key, args, kwargs)
        return meaning

    def function(self, key):
        def f(*args, **kwargs):
            return self.record(key, args, kwargs)
        f.__name__ = f.__qualname__ = key
        return f

    def value(self):
        r = self.rng
        if r.random() < 0.3:
            return gen.rich(r)
        return r.choice([None, 0, 1, -1, "", "v", "w" * r.randint(1, 3),
                         (), (1, 2), False, 2.5, "insert", ODD[0],
                         r.choice(MEANING)])

    def prebound(self):
        r = self.rng
        pre = [self.value() for _ in range(r.choice([0, 0, 1, 2]))]
        pool = ["a", "b", "c"] if r.random() < 0.7 else KEYWORDS
        kw = {k: self.value() for k in r.sample(pool, r.choice([0, 1, 2]))}
        if r.random() < 0.02:
            kw |= {f"k{i}": i for i in range(r.choice([20, 70, 300]))}
        if r.random() < 0.02:
            pre += [self.value() for _ in range(r.choice([20, 70, 300]))]
        return pre, kw

    def step(self, kinds=None):
        r = self.rng
        self.serial += 1
        key = f"s{self.serial}"
        if r.random() < 0.12:
            self.plain[key] = gen.rich(r) if r.random() < 0.4 else r.choice(
                [None, None, None, False, 0, "", ()] + ODD + MEANING)
        kind = r.choice(kinds or [
            "def", "def", "partial", "partial", "partial2", "curry",
            "instance", "method", "dynamic", "builtin", "builtin_partial",
            "composition", "lambda", "wrapped", "holder", "excepts"])
        mean, f = self.mean(key), self.function(key)
        if kind == "partial":
            pre, kw = self.prebound()
            return Step(functools.partial(f, *pre, **kw), kind, key, pre, kw,
                        mean)
        if kind == "partial2":
            p1, k1 = self.prebound()
            p2, k2 = self.prebound()
            return Step(functools.partial(functools.partial(f, *p1, **k1),
                                          *p2, **k2),
                        kind, key, p1 + p2, k1 | k2, mean)
        if kind == "curry":
            pre, kw = self.prebound()
            return Step(curry(f, *pre, **kw), kind, key, pre, kw, mean)
        if kind == "instance":
            class Instance:
                def __call__(me, *args, **kwargs):
                    return self.record(key, args, kwargs)
            return Step(Instance(), kind, key, meaning=mean)
        if kind == "method":
            class Holder:
                def method(me, *args, **kwargs):
                    return self.record(key, args, kwargs)
            return Step(Holder().method, kind, key, meaning=mean)
        if kind == "dynamic":
            src = (f"def {key}(*args, **kwargs):\n"
                   f"    return record({key!r}, args, kwargs)\n")
            d = Dynamic(src, {"record": self.record}, lazy=r.random() < 0.5)
            return Step(d, kind, key, meaning=mean)
        if kind == "builtin":
            f = r.choice([str, repr, ascii])
            return Step(f, kind, key, meaning=lambda a, k: f(*a, **k),
                        inserts_ok=False)
        if kind == "builtin_partial":
            f, pre = r.choice([
                (operator.is_, [1]), (operator.eq, ["x"]),
                (operator.is_not, [None]), (operator.ne, ["p"]),
                (pair, [(1, 2)]), (max, ["a", "b"])])
            if f is max:
                return Step(functools.partial(max, *pre, key=repr), kind, key,
                            pre, {"key": repr}, lambda a, k: max(*a, **k),
                            inserts_ok=False)
            return Step(functools.partial(f, *pre), kind, key, pre, {},
                        lambda a, k: f(*a, **k), inserts_ok=False)
        if kind == "composition":
            inner = [self.step(["def", "partial", "instance"])
                     for _ in range(r.randint(1, 3))]
            c = Composition([s.obj for s in inner])

            def through(args, kwargs):
                (state,) = args
                for s in inner:
                    state = s.meaning(*s.arguments(state, {}))
                return state
            return Step(c, kind, key, meaning=through, inserts_ok=False)
        if kind == "holder":
            # holds a function, but calling it does something else
            class Around:
                def __init__(me):
                    me.func = self.function(f"{key} bypassed")
                    if r.random() < 0.3:
                        me.args = (1, 2)

                def __call__(me, *args, **kwargs):
                    return self.record(key, args, kwargs)
            return Step(Around(), kind, key, meaning=mean)
        if kind == "excepts":
            def raising(*args, **kwargs):
                raise Contained(self.record(key, args, kwargs))

            def contained(args, kwargs):
                return "contained", mean(args, kwargs)
            return Step(
                excepts(Contained, raising, lambda ex: ("contained",
                                                        ex.args[0])),
                kind, key, meaning=contained)
        if kind == "lambda":
            return Step(lambda *a, **k: self.record(key, a, k), kind, key,
                        meaning=mean)
        if kind == "wrapped":
            # what is wrapped is not what is meant
            @functools.wraps(self.function(f"{key} unwrapped"))
            def g(*args, **kwargs):
                return f(*args, **kwargs)
            if r.random() < 0.4:
                pre, kw = self.prebound()
                return Step(functools.partial(g, *pre, **kw), kind, key, pre,
                            kw, mean)
            return Step(g, kind, key, meaning=mean)
        return Step(f, kind, key, meaning=mean)


class Contained(Exception):
    pass


def pair(a, b):
    return a, b


class Sink:
    """writable object"""

    def __init__(self, log, name):
        self.log, self.name, self.got = log, name, []

    def write(self, thing):
        self.log.append(("write", self.name))
        self.got.append(thing)


class Model:
    """steps, inserts and sends of one composition"""

    def __init__(self, world):
        self.world = world
        self.steps, self.inserts, self.sends = {}, {}, {}

    def add_step(self, step, name=None):
        if name is None:
            name = len(self.steps) + 1
        self.steps[name] = step
        return name

    def reindex(self):
        self.steps = dict(enumerate(self.steps.values()))

    def run(self, signal, on_step=None):
        """generator of the intermediate results"""
        state = signal
        for name in list(self.steps):
            step = self.steps[name]
            state = step.meaning(
                *step.arguments(state, self.inserts.get(name, {})))
            for send in self.sends.get(name, ()):
                send(state)
            yield state

    def execute(self, signal):
        state = None
        for state in self.run(signal):
            pass
        return state


def step_names(rng, n, rich=True):
    """names of a mapping of steps"""
    pool = ["first", "second", "third", "f", "g", "", "step", 7, 3, 0, -1, 1,
            2, 10]
    pool += [f"s{i}" for i in range(n)]
    if rng.random() < 0.5:
        return rng.sample(pool[:max(n, 14)], n)
    names = {}
    while len(names) < n:
        name = gen.rich_key(rng) if rich else rng.choice(gen.NAMES)
        if isinstance(name, gen.StrSub):
            name = gen.StrSub("sub " + name)
        # names that equal another type's are left out
        elif isinstance(name, numbers.Number) and type(name) is not int:
            continue
        names[name] = None
    return list(names)


def insertable(model, name):
    return name in model.steps and model.steps[name].inserts_ok


def random_insert(world, model, name):
    """a key that leaves no gap below it"""
    rng = world.rng
    step = model.steps.get(name)
    pre = len(step.pre) if step is not None else 0
    have = {k for k in model.inserts.get(name, {}) if isinstance(k, int)}
    taken = set(range(pre)) | have
    top = 0
    while top in taken:
        top += 1
    # the signal takes the first open position; one more may follow it
    if rng.random() < 0.6:
        return rng.choice(list(range(top)) + [top + 1] if rng.random() < 0.7
                          else [top])
    if rng.random() < 0.7:
        return rng.choice(["a", "b", "c", "d"])
    return rng.choice(KEYWORDS)


def gapless(model, name):
    """do the signal and all inserts of the step fill positions 0..k?"""
    step = model.steps.get(name)
    if step is None:
        return True
    pos = set(range(len(step.pre))) | {
        k for k in model.inserts.get(name, {}) if isinstance(k, int)}
    i = 0
    while i in pos:
        i += 1
    pos.add(i)
    return pos == set(range(len(pos)))


def build(world, model, as_mapping=None, sends=None, **kw):
    """the real composition of a model"""
    rng = world.rng
    steps = {k: s.obj for k, s in model.steps.items()}
    inserts = {k: dict(v) for k, v in model.inserts.items()}
    if list(steps) == list(range(len(steps))) and rng.random() < 0.7:
        steps = rng.choice([list, tuple])(steps.values())
    if kw.get("optional") is False and rng.random() < 0.5:
        del kw["optional"]  # the default
    return Composition(steps, inserts=inserts or None, sends=sends, **kw)
