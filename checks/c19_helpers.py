"""C19: functional and collection helpers vs their definitions"""
import collections
import itertools
import operator
import re
from collections import OrderedDict, UserDict, deque, namedtuple
from types import MappingProxyType, SimpleNamespace

import numpy as np

from dustgoggles import func as fn
from dustgoggles import structures as st
from vmon import gen, maps
from vmon.core import Check, Workload


class Recorder:
    """a function that keeps what it was given"""

    def __init__(self, result=None, name="recorder"):
        self.calls, self.result, self.__name__ = [], result, name

    def __call__(self, *args, **kwargs):
        self.calls.append((args, kwargs))
        return self.result


def is_calls(got, want):
    """the same argument objects"""
    return len(got) == len(want) and all(
        len(a) == len(b) and all(x is y for x, y in zip(a, b)) and
        list(c) == list(d) and all(c[k] is d[k] for k in c)
        for (a, c), (b, d) in zip(got, want))


def thing(rng):
    return rng.choice([
        lambda: rng.randint(-3, 5), lambda: rng.choice("abc"), lambda: None,
        lambda: True, lambda: 1.0, lambda: (1, "a"), lambda: gen.text(rng),
        lambda: b"x", lambda: [1], lambda: maps.Same("t"), lambda: {},
        lambda: float("nan"), lambda: "", lambda: 0, lambda: len,
        lambda: gen.rich(rng), lambda: gen.rich(rng), lambda: gen.rich(rng),
    ])()


def hashable(rng):
    return rng.choice([
        lambda: rng.randint(-3, 5), lambda: rng.choice("abcde"),
        lambda: None, lambda: rng.random() < 0.5, lambda: 2.0, lambda: (1,),
        lambda: b"a", lambda: frozenset([rng.randint(0, 1)]), lambda: "",
        lambda: gen.text(rng, 2), lambda: gen.rich_key(rng),
        lambda: gen.rich_key(rng),
    ])()


def arguments(rng, low=0):
    args = tuple(thing(rng) for _ in range(rng.randint(low, 4)))
    kwargs = {k: thing(rng) for k in rng.sample(
        ["a", "b", "args", "key", "value", "kwargs", "fn", "n", "unpack"],
        rng.choice([0, 0, 1, 3, 9]))}
    return args, kwargs


# ---- functions of functions
def w_calls(mon, rng):
    args, kwargs = arguments(rng)
    result = thing(rng)
    f = Recorder(result)
    out = fn.pass_parameters(f, *args, **kwargs)
    mon.check(out is result and is_calls(f.calls, [(args, kwargs)]),
              "pass_parameters", got=f.calls, want=(args, kwargs))
    # constants and nothing
    value = thing(rng)
    c = fn.constant(value)
    for a, k in [arguments(rng), ((), {}), (args, kwargs)]:
        mon.check(c(*a, **k) is value, "constant", value=value)
        mon.check(fn.zero(*a, **k) is None, "zero")
    # splatting
    f = Recorder(result)
    seq = rng.choice([args, list(args), deque(args), iter(args)])
    mon.check(fn.splat(f)(seq) is result and
              is_calls(f.calls, [(args, {})]), "splat", got=f.calls,
              want=args)
    # truncation
    n = rng.randint(0, 5)
    f = Recorder(result)
    stop = fn.argstop(f, n) if rng.random() < 0.5 else fn.argstop(
        f, arg_count=n)
    if len(args) != 1:
        out = stop(*args, **kwargs)
        want = args[:n]
    else:
        # a single argument is a sequence of arguments
        packed = tuple(thing(rng) for _ in range(rng.randint(0, 4)))
        out = stop(rng.choice([packed, list(packed)]), **kwargs)
        want = packed[:n]
        if rng.random() < 0.3:
            f.calls.clear()
            packed = rng.choice(["", "a", "abcdef", b"xyz", range(5)])
            out = stop(packed, **kwargs)
            want = tuple(packed[:n])
        mon.ev("unpacked")
    mon.check(out is result and is_calls(f.calls, [(want, kwargs)]),
              "argstop", got=f.calls, want=want)
    f = Recorder(result)
    out = fn.argstop(f, n, unpack=False)(*args, **kwargs)
    mon.check(out is result and is_calls(f.calls, [(args[:n], kwargs)]),
              "argstop without unpacking", got=f.calls, want=args[:n])
    f = Recorder(result)
    if len(args) != 1:
        mon.check(fn.argstop(f)(*args) is result and
                  is_calls(f.calls, [((), {})]), "argstop by default",
                  got=f.calls)
    # triggers
    f = Recorder(result)
    trigger = fn.triggerize(f)
    states = [thing(rng) for _ in range(3)]
    for i, s in enumerate(states):
        mon.check(trigger(s) is s, "state through a trigger", got=s)
        mon.check(is_calls(f.calls, [((), {})] * (i + 1)),
                  "effects of a trigger", got=f.calls)
    mon.check(trigger() is None and len(f.calls) == 4, "bare trigger")
    mon.check(trigger(deferred_state=s) is s, "named state")
    # errors pass
    boom = ValueError("b")

    def fails(*_, **__):
        raise boom
    for g in (fn.splat(fails), fn.triggerize(fails), fn.argstop(fails, 2),
              lambda x: fn.pass_parameters(fails, x),
              lambda x: fn.catch_interaction(False, fails, x)):
        mon.check(mon.raises(ValueError, lambda: g((1, 2)), "an error")
                  is boom, "another error")
    mon.ev("calls")
    mon.sig("calls", len(args), n, sorted(kwargs))


def w_guard(mon, rng):
    """interaction only where it is allowed"""
    args, kwargs = arguments(rng)
    result, default = thing(rng), thing(rng)
    flag = rng.choice([True, False, 0, 1, "", "yes", None, [], [0], 0.0,
                       "0", b"", object(), (), 2])
    f = Recorder(result)
    if rng.random() < 0.5:
        got = fn.catch_interaction(flag, f, *args, _default=default,
                                   **kwargs)
    else:
        got, default = fn.catch_interaction(flag, f, *args, **kwargs), ""
    if flag:
        mon.check(f.calls == [], "a guarded function was called", flag=flag)
        mon.check(got is default or got == default == "", "default",
                  got=got, want=default, flag=flag)
        mon.ev("guards")
    else:
        mon.check(got is result and is_calls(f.calls, [(args, kwargs)]),
                  "an allowed call", got=f.calls, flag=flag)
    mon.sig("guard", repr(flag)[:9], len(args), len(kwargs))


def w_naturals(mon, rng):
    n = rng.choice([1, 2, 100, 5000, 70000, 140000])
    got = fn.naturals()
    mon.eq([next(got) for _ in range(n)], list(range(1, n + 1)), "naturals")
    mon.eq(next(fn.naturals()), 1, "naturals do not start over")
    mon.ev("numbers", n)


def w_predicates(mon, rng):
    items = [hashable(rng) for _ in range(rng.randint(1, 4))]
    items = rng.choice([list, tuple, lambda x: deque(x)])(items)
    pool = [hashable(rng) for _ in range(rng.randint(0, 8))]
    if rng.random() < 0.6:
        pool += rng.sample(list(items), rng.randint(0, len(items)))
    rng.shuffle(pool)
    box = rng.choice([list, tuple, set, frozenset, deque,
                      lambda x: dict.fromkeys(x, 1)])(pool)
    inside = [i in box for i in items]
    mon.eq(bool(fn.are_in(items)(box)), all(inside), "are all in",
           items=items, box=box)
    mon.eq(bool(fn.are_in(items, operator.or_)(box)), any(inside),
           "are any in", items=items, box=box)
    mon.eq(bool(fn.are_in(items, oper=operator.xor)(box)),
           sum(inside) % 2 == 1, "are an odd number in")
    text = gen.text(rng)
    bits = [text[i:i + 2] for i in range(3)] + [rng.choice("abz\n")]
    mon.eq(bool(fn.are_in(bits)(text)), all(b in text for b in bits),
           "substrings")
    types = rng.sample([int, str, bool, float, list, dict, type(None), tuple,
                        object, collections.abc.Hashable, type, Exception],
                       rng.randint(0, 3))
    test = fn.is_it(*types)
    for _ in range(6):
        x = rng.choice([thing, hashable])(rng)
        mon.check(test(x) is isinstance(x, tuple(types)), "is_it", x=x,
                  types=types)
    mon.ev("predicates")
    mon.sig("pred", inside, len(types))


def w_sets(mon, rng):
    base = [hashable(rng) for _ in range(6)]
    groups = [[rng.choice(base) if rng.random() < 0.7 else hashable(rng)
               for _ in range(gen.size(rng, range(10)))]
              for _ in range(rng.randint(1, 4))]

    def shape(g):
        return rng.choice([list, tuple, iter, deque,
                           lambda x: (i for i in x)])(g)
    shared = set(groups[0])
    for g in groups[1:]:
        shared = {x for x in shared if x in g}
    got = fn.intersection(*map(shape, groups))
    mon.check(type(got) is set and got == shared, "intersection", got=got,
              want=shared, groups=groups)
    got = fn.disjoint(*map(shape, groups))
    want = [[x for x in g if x not in shared] for g in groups]
    mon.check(type(got) is list and len(got) == len(want) and all(
        type(a) is list and len(a) == len(b) and
        all(x is y for x, y in zip(a, b)) for a, b in zip(got, want)),
        "disjoint parts", got=got, want=want)
    mon.ev("set_operations")
    mon.ev("shared_elements", len(shared))
    mon.sig("sets", [len(g) for g in groups], len(shared))


def w_maps(mon, rng):
    lists = [[thing(rng) for _ in range(gen.size(rng, range(7)))]
             for _ in range(rng.choice([1, 1, 2, 3]))]

    def f(*xs):
        return ("f", *xs)
    want = [f(*xs) for xs in zip(*lists)]
    got = fn.gmap(f, *[rng.choice([list, iter, tuple])(x) for x in lists])
    mon.eq(got, tuple(want), "gmap")
    mon.eq(fn.gmap(f, *lists, evaluator=list), want, "gmap into a list")
    mon.eq(fn.gmap(f, *lists, evaluator=lambda it: sum(1 for _ in it)),
           len(want), "gmap into a count")
    mon.eq(fn.gmap(lambda *x: f(*x), [list(x) for x in zip(*lists)],
                   mapper=itertools.starmap), tuple(want),
           "gmap by starmap")
    # takes no more than it needs of what may never end
    taken = itertools.count()
    mon.eq(fn.gmap(f, lists[0], (next(taken) for _ in range(10 ** 4))),
           tuple(f(x, i) for i, x in enumerate(lists[0])),
           "gmap with a longer iterable")
    mon.eq(next(taken), len(lists[0]), "elements taken")
    flat = lists[0]
    mon.check(all(a is b for a, b in zip(fn.gmap(
        bool, flat, mapper=filter), [x for x in flat if x])),
        "gmap by filter")
    # first match
    seen = []

    def test(x):
        seen.append(x)
        return rng_type(x)
    kind = rng.choice([str, int, type(None), list])

    def rng_type(x):
        return isinstance(x, kind)
    hits = [x for x in flat if isinstance(x, kind)]
    source = rng.choice([list, iter])(flat)
    if hits:
        mon.check(fn.filtern(test, source) is hits[0], "first match")
        first = [i for i, x in enumerate(flat) if isinstance(x, kind)][0]
        mon.eq(len(seen), first + 1, "tests made to find the first match")
    else:
        mon.raises(StopIteration, lambda: fn.filtern(test, source),
                   "no match")
    mon.ev("maps")
    mon.sig("maps", [len(x) for x in lists], len(hits))


# ---- collections
Pair = namedtuple("Pair", "x y")


class Prop:
    attr = "class attr"

    @property
    def broken(self):
        raise AttributeError("inner")

    def __getitem__(self, k):
        if k == "item":
            return [1, 2]
        raise KeyError(k)


def build(rng, depth):
    """a nest of everything that can be indexed or has attributes"""
    if depth == 0:
        return thing(rng)
    sub = [build(rng, depth - 1) for _ in range(3)]
    return rng.choice([
        lambda: {"a": sub[0], 1: sub[1], None: sub[2]},
        lambda: list(sub), lambda: tuple(sub), lambda: Pair(*sub[:2]),
        lambda: SimpleNamespace(a=sub[0], b=sub[1]),
        lambda: OrderedDict(a=sub[0], b=sub[1]),
        lambda: MappingProxyType({"a": sub[0]}), lambda: UserDict(a=sub[1]),
        lambda: deque(sub), Prop, lambda: "text", lambda: np.arange(4),
        lambda: range(5), lambda: maps.OwnMapping(a=sub[0]),
        lambda: re.match("(?P<a>t)", "t"), lambda: 5, lambda: None,
        lambda: maps.default_dict({"a": sub[0]}) and {"a": sub[0]},
    ])()


STEPS = ["a", "b", 0, 1, 2, -1, "x", "y", None, "missing", "attr", "item",
         "broken", "real", 10 ** 6, (), "a", "keys", "__class__", "_fields",
         slice(0, 2), True, 1.0, -3, "copy", "_d", b"a", "0", "imag",
         10 ** 30, -10 ** 30, "x.y", "a b", ""]
GONE = object()


def step(level, key):
    """indexing, or else attribute access; GONE if neither"""
    try:
        return level[key]
    except (KeyError, IndexError, TypeError):
        pass
    if isinstance(key, str):
        try:
            return getattr(level, key)
        except AttributeError:
            pass
    return GONE


def follow(rng, level, n):
    keys = []
    for _ in range(n):
        options = [k for k in STEPS if step(level, k) is not GONE]
        k = (rng.choice(options) if options and rng.random() < 0.85
             else rng.choice(STEPS))
        keys.append(k)
        level = step(level, k)
        if level is GONE:
            keys += [rng.choice(STEPS) for _ in range(rng.randint(0, 2))]
            return keys, GONE
    return keys, level


def equal(a, b):
    if a is b or (type(a) is type(b) and isinstance(a, np.generic)
                  and a == b):
        return True
    # bound methods, slices and the like are made anew
    return type(a) is type(b) and (callable(a) or repr(a) == repr(b))


def w_get_from(mon, rng):
    root = build(rng, rng.choice([1, 2, 4]))
    for _ in range(5):
        keys, want = follow(rng, root, rng.choice([0, 1, 2, 3, 5]))
        default = thing(rng)
        shape = rng.choice([list, tuple, iter])(keys)
        if rng.random() < 0.3:
            got, default = st.get_from(root, shape), None
        else:
            got = st.get_from(root, shape, default)
        if want is GONE:
            mon.check(got is default, "default for a missing path", got=got,
                      want=default, keys=keys, root=root)
            mon.ev("missing_paths")
        else:
            mon.check(equal(got, want), "element at the end of a path",
                      got=got, want=want, keys=keys, root=root)
            mon.ev("found_paths")
        mon.sig("get", [type(k).__name__ for k in keys], want is GONE,
                type(root))
    k = rng.choice(STEPS)
    want = step(root, k)
    if want is not GONE:
        mon.check(equal(st.getitemattr(root, k), want), "getitemattr", key=k)
    else:
        mon.raises((AttributeError, TypeError),
                   lambda: st.getitemattr(root, k), "getitemattr", key=k)


def w_get_all(mon, rng):
    group = [maps.nested(rng, 0, maps.DICTS + maps.OTHERS)
             for _ in range(gen.size(rng, range(7)))]
    key, default = rng.choice(maps.KEYS), thing(rng)
    shape = rng.choice([
        list, tuple, iter, lambda g: {i: x for i, x in enumerate(g)},
        lambda g: OrderedDict((str(i), x) for i, x in enumerate(g)),
        lambda g: maps.OwnMapping(enumerate(g))])
    if rng.random() < 0.5:
        got = st.get_from_all(key, shape(group), default)
    else:
        got, default = st.get_from_all(key, shape(group)), None
    want = [g[key] if key in g else default for g in group]
    mon.check(type(got) is list and len(got) == len(want) and
              all(a is b for a, b in zip(got, want)), "values from all",
              got=got, want=want, key=key)
    mon.ev("gathered", len(want))
    mon.sig("all", len(group), sum(key in g for g in group))


def w_coerce(mon, rng):
    items = [thing(rng) for _ in range(gen.size(rng, range(7)))]
    keys = [hashable(rng) for _ in range(4)]

    def same_list(got, want, what):
        mon.check(type(got) is list and len(got) == len(want) and
                  all(a is b for a, b in zip(got, want)), what, got=got,
                  want=want)
    for box in (list(items), tuple(items), deque(items)):
        same_list(st.listify(box), items, "listify")
    for box in (set(keys), frozenset(keys), dict.fromkeys(keys, 0),
                dict.fromkeys(keys, 0).values(), {k: 1 for k in keys}.keys()):
        same_list(st.listify(box), list(box), "listify")
    same_list(st.listify(range(3)), [0, 1, 2], "listify a range")
    mon.eq(st.listify(b"ab"), [97, 98], "listify bytes")
    mon.eq(st.listify(np.arange(3)), list(np.arange(3)), "listify an array")
    for single in (gen.text(rng), 5, None, 2.5, len, iter([1]), object(),
                   gen.StrSub("ab"), (i for i in "a")):
        same_list(st.listify(single), [single], "listify a single thing")
    # mappings
    m = maps.nested(rng, 0, maps.DICTS + maps.OTHERS)
    before = maps.snapshot(m)
    got = st.reindex_mapping(m)
    mon.check(isinstance(got, dict) and
              list(got) == list(range(len(m))) and
              all(a is b for a, b in zip(got.values(), m.values())),
              "reindexed mapping", got=got, want=m)
    mon.check(maps.snapshot(m) == before, "input was modified")
    for box in (list(items), tuple(items), iter(items), deque(items)):
        got = st.enumerate_as_mapping(box)
        mon.check(isinstance(got, dict) and
                  list(got) == list(range(len(items))) and
                  all(a is b for a, b in zip(got.values(), items)),
                  "sequence as a mapping", got=got, want=items)
    got = st.enumerate_as_mapping(m)
    mon.check(list(got) == list(m) and all(got[k] is m[k] for k in m),
              "mapping as a mapping", got=got)
    mon.eq(st.enumerate_as_mapping(None), {}, "nothing as a mapping")
    mon.ev("coercions")
    mon.sig("coerce", len(items), len(m))


def w_separate(mon, rng):
    items = [thing(rng) for _ in range(gen.size(rng, range(11)))]
    kind = rng.choice([str, (int, float), type(None), object, set])
    hits, misses = st.separate_by(
        rng.choice([list, tuple, iter, deque])(items),
        lambda x: isinstance(x, kind))
    want = ([x for x in items if isinstance(x, kind)],
            [x for x in items if not isinstance(x, kind)])
    for got, w in zip((hits, misses), want):
        mon.check(list(map(id, got)) == list(map(id, w)), "a part",
                  got=got, want=w)
    mon.ev("partitions")
    mon.sig("sep", len(hits), len(misses))


def w_hashdict(mon, rng):
    name, key = rng.choice([
        ("hash", None), ("len", len), ("str", str), ("type", type),
        ("id", id), ("lower", lambda s: str(s).lower()),
        ("none", lambda _: None), ("first", lambda s: str(s)[:1]),
    ])
    d = st.HashDict() if key is None else (
        st.HashDict(key) if rng.random() < 0.5 else
        st.HashDict(equivalence=key))
    key = key or hash
    keys = [hashable(rng) for _ in range(5)]
    stored, last, distinct = {}, {}, []
    for _ in range(gen.size(rng, range(1, 26))):
        k = rng.choice(keys)
        if rng.random() < 0.65:
            item = rng.choice([
                lambda: rng.choice(["a", "A", "ab", "b", "B", ""]),
                lambda: gen.text(rng, 2), lambda: (1, rng.randint(0, 1))])()
            if name == "hash" and rng.random() < 0.5:
                item = rng.choice([1, 1.0, True, -1, 2 ** 61, "a", 0, 0.0])
            elif name == "type":
                item = thing(rng)
            h = key(item)
            stored.setdefault(h, item)
            last[k] = h
            distinct.append(item)
            d[k] = item
            mon.ev("items_set")
        for k in keys:
            if k in last:
                mon.check(d[k] is stored[last[k]], "item of a key",
                          got=d[k], want=stored[last[k]], key=k, by=name)
            else:
                mon.raises(KeyError, lambda: d[k], "a key never set")
    mon.check(len({id(d[k]) for k in last}) == len(set(last.values())),
              "one item per class")
    for text in (str(d), repr(d)):
        mon.eq([int(x) for x in re.findall("[0-9]+", text)],
               [len(last), len(stored)],
               "printed numbers of keys and of items", text=text)
    mon.sig("hash", name, len(stored), len(last))


CHECK = Check(
    "C19",
    [
        Workload(w_calls, 3000, 80000, {"calls": 2000, "unpacked": 300}),
        Workload(w_guard, 2500, 50000, {"guards": 1000}),
        Workload(w_naturals, 40, 400, {"numbers": 5000}),
        Workload(w_predicates, 3000, 80000, {"predicates": 2000}),
        Workload(w_sets, 3000, 80000,
                 {"set_operations": 2000, "shared_elements": 1000}),
        Workload(w_maps, 3000, 80000, {"maps": 2000}),
        Workload(w_get_from, 4000, 120000,
                 {"found_paths": 3000, "missing_paths": 2000}),
        Workload(w_get_all, 2000, 40000, {"gathered": 2000}),
        Workload(w_coerce, 2000, 40000, {"coercions": 1000}),
        Workload(w_separate, 2000, 40000, {"partitions": 1000}),
        Workload(w_hashdict, 3000, 80000, {"items_set": 10000}),
    ],
    rule="a case is one helper on random inputs (hostile values, containers "
         "and iterators of all kinds), compared with its definition by "
         "identity of the objects involved; distinct = distinct (helper, "
         "sizes, outcome)",
    assumptions=["at least one item and one iterable where the helper folds",
                 "separation predicates return bools"],
)
