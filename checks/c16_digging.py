"""C16: digging and editing vs an independent traversal"""
import operator
from collections import OrderedDict, UserDict
from collections.abc import Mapping

from dustgoggles import structures as st
from vmon import gen, maps
from vmon.core import Check, Workload

MTYPES = [(dict,), (dict, UserDict), (Mapping,), (OrderedDict,),
          (dict, maps.OwnMapping), (UserDict, OrderedDict)]


def levels(root, mtypes):
    """entries by level: [[(key, value), ...], ...], in level order"""
    out, now = [], [root]
    while now:
        entries = [(k, m[k]) for m in now for k in m]
        out.append(entries)
        now = [v for _, v in entries if isinstance(v, mtypes)]
    return out


def chain(rng, n):
    """a deep narrow mapping"""
    d = {"end": 1}
    for i in range(n):
        d = {rng.choice(["a", "b", i]): d} | (
            {"side": i} if rng.random() < 0.3 else {})
    return d


def root(mon, rng, types=None):
    if rng.random() < 0.04:
        return chain(rng, rng.choice([30, 60, 100]))
    if types is None:
        types = rng.choice([maps.DICTS, maps.DICTS + maps.OTHERS])
    d = maps.nested(rng, rng.choice([0, 1, 3, 4, 6]), types)
    if rng.random() < 0.2 and isinstance(d, dict):
        # the same mapping at several places
        shared = maps.nested(rng, 2, types)
        d["s1"], d["s2"] = shared, {"s3": shared}
        if rng.random() < 0.6:
            d["s4"] = shared
    return d


class Truthy:
    def __init__(self, x):
        self.x = x

    def __bool__(self):
        return self.x


def reference(mon, rng, entries):
    """(arguments after the mapping, predicate)"""
    kind = rng.choice(["key", "key", "value", "predicate", "base_key",
                       "base_value", "base_item"])
    mon.ev(f"by_{kind}")

    def pick(i):
        e = rng.choice(entries)[i] if entries else None
        # (what can be called is a predicate)
        if entries and rng.random() < 0.75 and not callable(e):
            return maps.twin(e) if rng.random() < 0.3 else e
        if rng.random() < 0.2:
            e = gen.rich_key(rng)
            return "x" if callable(e) else e
        return rng.choice(["a", "b", 1, None, "absent", 0, ("a", "b")])
    if kind == "key":
        ref = pick(0)
        kw = rng.choice([{}, {"match": "key"}])
        return (ref, kw), lambda k, v: bool(ref == k)
    if kind == "value":
        ref = pick(1)
        if callable(ref):
            ref = "x"
        return (ref, {"match": "value"}), lambda k, v: bool(ref == v)
    if kind == "predicate":
        keys = [pick(0) for _ in range(2)]
        n = rng.randrange(4)
        truthy = rng.choice([bool, Truthy, lambda x: 1 if x else 0,
                             lambda x: "yes" if x else ""])
        if n == 0:
            def pred(k, v):
                return truthy(isinstance(v, dict))
        elif n == 1:
            def pred(k, v):
                return truthy(k in keys)
        elif n == 2:
            def pred(k, v):
                return truthy(isinstance(k, str) and
                              isinstance(v, (str, int)))
        else:
            def pred(k, v):
                return truthy(True)
        return (pred, {"match": rng.choice(["key", "value", "item"])}
                if rng.random() < 0.3 else {}), pred
    if kind == "base_key":
        if rng.random() < 0.5:
            ref = tuple(pick(0) for _ in range(3))
            return ((ref, {"base_pred": operator.contains}),
                    lambda k, v: k in ref)
        ref = pick(0)
        return (ref, {"match": "key", "base_pred": operator.ne}), \
            lambda k, v: ref != k
    if kind == "base_value":
        if rng.random() < 0.4:
            # one of several, equal or the very object
            ref = tuple(pick(1) for _ in range(4))
            pred = rng.choice([
                lambda r, v: any(x is v for x in r),
                lambda r, v: any(x is v or bool(x == v) for x in r)])
            ref = rng.choice([tuple, list])(ref)
            return ((ref, {"match": "value", "base_pred": pred}),
                    lambda k, v: pred(ref, v))
        ref = rng.choice([1, 2, "a"])

        def greater(r, v):
            # (not symmetric)
            return isinstance(v, type(r)) and r > v
        return ((ref, {"match": "value", "base_pred": greater}),
                lambda k, v: greater(ref, v))
    ref = pick(0), pick(1)

    def same_pair(r, k, v):
        return r[0] == k and r[1] is v
    return ((ref, {"match": "item", "base_pred": same_pair}),
            lambda k, v: same_pair(ref, k, v))


def ident(pairs):
    return [(id(k) if not isinstance(k, (str, int)) else k, id(v))
            for k, v in pairs]


def w_search(mon, rng):
    d = root(mon, rng)
    mtypes = rng.choice(MTYPES)
    kw0 = {} if mtypes == (dict,) and rng.random() < 0.5 else {
        "mtypes": mtypes}
    lv = levels(d, mtypes)
    entries = [e for level in lv for e in level]
    before = maps.snapshot(d)
    for _ in range(3):
        (ref, kw), pred = reference(mon, rng, entries)
        kw = kw | kw0
        want = [e for e in entries if pred(*e)]
        first = next(([e for e in level if pred(*e)] for level in lv
                      if any(pred(*e) for e in level)), None)
        calls = [("items", st.dig_for_items), ("keys", st.dig_for_keys),
                 ("values", st.dig_for_values)]
        rng.shuffle(calls)
        got = {n: f(d, ref, **kw) for n, f in calls}
        one = {"item": st.dig_for_item(d, ref, **kw),
               "key": st.dig_for_key(d, ref, **kw),
               "value": st.dig_for_value(d, ref, **kw)}
        if not want:
            mon.check(all(v is None for v in (got | one).values()),
                      "found what is not there", got=got, one=one, map=d,
                      ref=ref, kw=kw)
            mon.ev("nothing_found")
        else:
            mon.check(all(type(v) is list for v in got.values()),
                      "results are not lists", got=got)
            items = got["items"]
            mon.check(sorted(map(repr, ident(items))) ==
                      sorted(map(repr, ident(want))),
                      "entries found", got=items, want=want, map=d, ref=ref,
                      kw=kw)
            mon.check(len(got["keys"]) == len(got["values"]) == len(items)
                      and all(k is i[0] for k, i in zip(got["keys"], items))
                      and all(v is i[1] for v, i in zip(got["values"],
                                                        items)),
                      "keys, values and items are not parallel", got=got,
                      map=d)
            f = first[0]
            mon.check(one["key"] is f[0] and one["value"] is f[1] and
                      one["item"][0] is f[0] and one["item"][1] is f[1]
                      and len(one["item"]) == 2,
                      "single result is not the first of the shallowest "
                      "level", got=one, want=f, map=d, ref=ref, kw=kw)
            mon.ev("found", len(want))
            mon.ev("deep_first", first not in ([], None) and
                   not any(pred(*e) for e in lv[0]))
        mon.check(maps.snapshot(d) == before, "a search changed its input",
                  now=d)
    mon.sig(maps.shape(d), str(mtypes), len(want))
    mon.sample(f"{d} by {ref!r}, {kw}")


def w_edit(mon, rng):
    """edits, against a rebuilt copy"""
    d = maps.nested(rng, rng.choice([0, 1, 3, 5]),
                    [t for t in maps.DICTS + [UserDict]])
    if rng.random() < 0.05:
        d = chain(rng, 60)
    mtypes = rng.choice([(dict,), (dict,), (dict, UserDict), (OrderedDict,)])
    entries = [e for level in levels(d, mtypes) for e in level]
    kind = rng.choice(["key", "key", "type", "pair", "all_leaves",
                       "mappings"])
    keys = {rng.choice(entries)[0] if entries else "a" for _ in range(2)}
    truthy = rng.choice([bool, Truthy, lambda x: 1 if x else None])

    def is_map(v):
        return isinstance(v, (dict, UserDict))
    if kind == "key":
        def pred(k, v):
            return truthy(k in keys)
    elif kind == "type":
        def pred(k, v):
            return truthy(isinstance(v, (str, list)))
    elif kind == "pair":
        def pred(k, v):
            return truthy(isinstance(k, str) and not is_map(v))
    elif kind == "all_leaves":
        def pred(k, v):
            return truthy(not is_map(v))
    else:
        def pred(k, v):
            return truthy(isinstance(v, (maps.SubDict, OrderedDict)))
    result = rng.choice(["tag", "tag", "none", "copy", "unmatched"])
    made = []

    def new(k, v):
        if kind == "mappings" and result == "copy":
            return dict(v)
        if result == "none":
            return None
        if result == "unmatched" and kind == "key":
            # a mapping in which nothing matches
            return {("un", "matched"): 1}
        return ("edited", k)

    def setter(k, v):
        made.append((k, v))
        return new(k, v)
    wanted = []

    def expect(m):
        out = []
        nests = []
        for k, v in m.items():
            if pred(k, v):
                wanted.append((k, v))
                v = new(k, v)
            out.append([k, v])
        for pair in out:
            if isinstance(pair[1], mtypes):
                pair[1] = type(pair[1]), expect(pair[1])
            else:
                pair[1] = maps.snapshot(pair[1]) if is_map(pair[1]) else \
                    pair[1]
        return out

    def view(m):
        return [[k, (type(v), view(v)) if isinstance(v, mtypes) else
                 maps.snapshot(v) if is_map(v) else v]
                for k, v in m.items()]
    want = expect(d)
    # what is kept is the same object
    kept = {id(v): v for _, v in entries}
    kw = {} if mtypes == (dict,) and rng.random() < 0.5 else {
        "mtypes": mtypes}
    got = st.dig_and_edit(d, pred, setter, **kw)
    mon.check(got is d, "not the same mapping", got=got)
    mon.eq(view(d), want, "mapping after an edit", pred=kind, result=result)
    mon.check(sorted(map(repr, ident(made))) ==
              sorted(map(repr, ident(wanted))) or result == "copy",
              "calls of the setter", got=made, want=wanted)
    mon.ev("edits", len(wanted))
    mon.ev("unedited", not wanted)
    mon.sig("edit", kind, result, maps.shape(d))


def w_predicates(mon, rng):
    """constant_to_dig_predicate, keyonly, valonly"""
    k, v = rng.choice(maps.KEYS), maps.leaf(rng)
    ref = rng.choice([k, v, "x"])
    if not callable(ref):
        mon.eq(bool(st.constant_to_dig_predicate(ref)(k, v)), bool(ref == k),
               "default predicate")
        mon.eq(bool(st.constant_to_dig_predicate(ref, "value")(k, v)),
               bool(ref == v), "value predicate")
        mon.eq(st.constant_to_dig_predicate(
            ref, "item", lambda r, a, b: (r is ref, a is k, b is v))(k, v),
            (True, True, True), "item predicate")

    def pred(a, b):
        return True
    mon.check(st.constant_to_dig_predicate(pred, "value") is pred or
              st.constant_to_dig_predicate(pred, "value")(k, v) is True,
              "a predicate")
    mon.check(st.keyonly(lambda x: [x])(k, v)[0] is k, "keyonly")
    mon.check(st.valonly(lambda x: [x])(k, v)[0] is v, "valonly")


CHECK = Check(
    "C16",
    [
        Workload(w_search, 12000, 400000,
                 {"found": 20000, "nothing_found": 3000, "deep_first": 1000,
                  "by_key": 2000, "by_value": 1000, "by_predicate": 1000,
                  "by_base_key": 1000, "by_base_value": 1000,
                  "by_base_item": 1000}),
        Workload(w_edit, 8000, 300000, {"edits": 5000, "unedited": 500}),
        Workload(w_predicates, 400, 4000),
    ],
    rule="a case is a random nest of eight kinds of mappings searched or "
         "edited by key, value, predicate or custom comparison with random "
         "mapping types to descend into, compared with a level-by-level "
         "traversal; distinct = distinct (shape, types, number of matches)",
    assumptions=["mappings contain no cycles",
                 "setters do not create new matching entries"],
)
