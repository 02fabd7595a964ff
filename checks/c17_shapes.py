"""C17: records, unnesting, merging, nesting dicts, insertion vs models"""
import copy
import pickle
from collections import OrderedDict, UserDict
from collections.abc import Mapping

from dustgoggles import structures as st
from dustgoggles.structures import NestingDict
from vmon import gen, maps
from vmon.core import Check, Workload

FIELDS = ["f", "g", "value", "x_y", "", ("t", 1), 7.5, b"k", None]
CATEGORIES = ["cat", "a", "b", "", 0, 1, None, ("p", "q"), "é", 2.5, "a_b"]


def atom(rng):
    return rng.choice([
        lambda: rng.randint(0, 3), lambda: None, lambda: "x", lambda: [1],
        lambda: gen.text(rng), lambda: float("nan"), lambda: maps.Same("s"),
        lambda: (1, {"a": 2}), lambda: len, lambda: True,
    ])()


# ---- to_records
RECORD_TYPES = [dict, dict, OrderedDict, UserDict, maps.SubDict]


def tree(rng, depth, types):
    """innermost mappings at varying depths"""
    out = []
    for c in rng.sample(CATEGORIES, rng.choice([1, 1, 2, 3, 4])):
        if depth > 0 and rng.random() < 0.5:
            out.append((c, tree(rng, depth - 1, types)))
            continue
        fields = [(f, atom(rng)) for f in rng.sample(
            FIELDS, rng.choice([1, 1, 2, 4]))]
        if rng.random() < 0.2 and len(fields) > 1:
            # some fields are mappings, not all
            fields[0] = (fields[0][0], rng.choice([{}, {"deep": 1},
                                                   {"deep": {"er": 2}}]))
        rng.shuffle(fields)
        out.append((c, rng.choice(types)(fields)))
    return rng.choice(types)(out)


def leaves(m, path=()):
    for k in m:
        v = m[k]
        if all(isinstance(v[i], Mapping) for i in v):
            yield from leaves(v, path + (k,))
        else:
            yield path + (k,), v


def w_records(mon, rng):
    d = tree(rng, rng.choice([0, 1, 2, 4]), RECORD_TYPES)
    if rng.random() < 0.05:
        for i in range(40):
            d = {rng.choice(CATEGORIES): d}
    before = maps.snapshot(d)
    want = list(leaves(d))
    depth = max(len(p) for p, _ in want)
    if rng.random() < 0.4:
        names = ["L%d" % i for i in range(depth + rng.randint(0, 3))]
        if rng.random() < 0.3:
            names = [("name", i) for i in range(depth)]
        elif rng.random() < 0.3 and depth < 6:
            # fields of the same name give way to the path
            names = rng.sample(FIELDS[:5] + ["L0"], depth)
            mon.ev("colliding_names")
        got = st.to_records(d, level_names=rng.choice([
            names, tuple(names), iter(names)]))
    else:
        names = list(range(1, depth + 1))
        got = st.to_records(d)
    mon.check(type(got) is list, "not a list", got=got)
    mon.eq(len(got), len(want), "number of records", map=d)
    for rec, (path, fields) in zip(got, want):
        model = dict(fields.items()) | dict(zip(names, path))
        mon.check(set(rec) == set(model) and
                  all(rec[k] is model[k] for k in model), "record",
                  got=rec, want=model, map=d)
        mon.ev("records")
    mon.ev("mixed_depths", len({len(p) for p, _ in want}) > 1)
    mon.check(maps.snapshot(d) == before, "input was modified")
    mon.sig("rec", maps.shape(d))
    mon.sample(f"{d} -> {len(got)} records")


# ---- unnest
def paths(m, mtypes, path=()):
    for k in m:
        v = m[k]
        if isinstance(v, mtypes):
            yield from paths(v, mtypes, path + (k,))
        else:
            yield path + (k,), v


def spell(path, escape):
    parts = [f"{escape}{p}{escape}" for p in path[:-1]] + [str(path[-1])]
    return "_".join(parts)


def w_unnest(mon, rng):
    mtypes = rng.choice([(dict,), (dict,), (dict, UserDict), (OrderedDict,),
                         (Mapping,)])
    types = [t for t in maps.DICTS + [UserDict, maps.OwnMapping]]
    d = maps.nested(rng, rng.choice([0, 1, 2, 4]), types)
    if not isinstance(d, mtypes):
        d = OrderedDict([("top", d)])
    if rng.random() < 0.04:
        for i in range(80):
            d = OrderedDict([(rng.choice(maps.KEYS), d)])
    escape = rng.choice(["", "", '"', "'", "`", "__", "|", "_"])
    before = maps.snapshot(d)
    kw = {} if mtypes == (dict,) and rng.random() < 0.5 else {
        "mtypes": mtypes}
    if escape or rng.random() < 0.5:
        kw["escape"] = escape
    got = st.unnest(d, **kw)
    all_paths = list(paths(d, mtypes))
    groups = {}
    for p, v in all_paths:
        groups.setdefault(spell(p, escape), []).append(v)
    mon.check(isinstance(got, dict), "not a dict", got=got)
    mon.check(set(got) == set(groups), "spelled paths", got=got,
              want=list(groups), map=d, escape=escape)
    for k, vs in groups.items():
        mon.check(any(got[k] is v for v in vs), "value of a leaf", key=k,
                  got=got[k], want=vs)
        mon.ev("leaves")
        mon.ev("colliding_leaves", len(vs) > 1)
    mon.check(maps.snapshot(d) == before, "input was modified")
    mon.sig("unn", maps.shape(d), escape, str(mtypes))


# ---- rmerge
def merged(a, b, mtypes):
    out = {}
    for k in a:
        if k in b and isinstance(a[k], mtypes) and isinstance(b[k], mtypes):
            out[k] = ("merged", merged(a[k], b[k], mtypes))
        elif k in b:
            out[k] = ("is", b[k])
        else:
            out[k] = ("is", a[k])
    for k in b:
        if k not in a:
            out[k] = ("is", b[k])
    return out


def check_merge(mon, got, want, path=()):
    mon.check(isinstance(got, Mapping) and len(got) == len(want) and
              all(k in got for k in want), "keys of a merged mapping",
              got=got, want=list(want), at=path)
    for k, (how, v) in want.items():
        if how == "is":
            mon.check(got[k] is v or (
                isinstance(v, Mapping) and
                maps.snapshot(got[k])[1] == maps.snapshot(v)[1]),
                "value in a merged mapping", got=got[k], want=v,
                at=path + (k,))
        else:
            check_merge(mon, got[k], v, path + (k,))
            mon.ev("merged_levels")


def w_rmerge(mon, rng):
    mtypes = rng.choice([(dict, OrderedDict), (dict, OrderedDict), (dict,),
                         (OrderedDict,), (UserDict, dict)])
    types = maps.DICTS + [UserDict]
    keys = maps.KEYS[:6] + [0, 1, None]
    a, b = (maps.nested(rng, rng.choice([0, 2, 4]), types, keys, p=0.6)
            for _ in "ab")
    if rng.random() < 0.2:
        # much in common
        b = copy.copy(a)
        for _ in range(3):
            k = rng.choice(keys)
            b[k] = maps.nested(rng, 2, types, keys)
    if rng.random() < 0.04:
        # far down, with something else beside
        for i in range(rng.choice([9, 17, 33, 80])):
            k = rng.choice(keys)
            a, b = (rng.choice(maps.DICTS)(
                [(k, m), (rng.choice(keys), i)][:2 if k != "beside" else 1]
                if rng.random() < 0.5 else [(k, m)]) for m in (a, b))
            if a[k] is i or b[k] is i:
                break
    snaps = maps.snapshot(a), maps.snapshot(b)
    if mtypes == (dict, OrderedDict) and rng.random() < 0.5:
        got = st.rmerge(a, b)
    else:
        got = st.rmerge(a, b, mtypes)
    check_merge(mon, got, merged(a, b, mtypes))
    mon.check((maps.snapshot(a), maps.snapshot(b)) == snaps,
              "an input was modified", a=a, b=b)
    mon.ev("merges")
    mon.sig("mrg", maps.shape(a), maps.shape(b), str(mtypes))


# ---- NestingDict
def plain(x):
    """the same content in plain dicts"""
    if isinstance(x, dict):
        return {k: plain(v) for k, v in x.items()}
    return x


def no_nesting(x):
    return not isinstance(x, NestingDict) and (
        not isinstance(x, dict) or all(no_nesting(v) for v in x.values()))


class SubNesting(NestingDict):
    """makes levels of the parent's class"""

    def depth(self):
        return 1 + max([v.depth() for v in self.values()
                        if isinstance(v, SubNesting)], default=0)


def w_nesting(mon, rng):
    cls = rng.choice([NestingDict] * 4 + [SubNesting])
    d, m = cls(), {}
    if rng.random() < 0.15:
        start = {"given": 1, "a": {"b": 2}}
        d, m = cls(None, start), copy.deepcopy(start)
    trail = []
    for _ in range(rng.randint(1, 15)):
        path = [rng.choice(maps.KEYS[:10] + [0, 1])
                for _ in range(rng.choice([1, 2, 3, 3, 6]))]
        if rng.random() < 0.03:
            path = path * 10
        op = rng.choice(["set", "set", "set", "touch", "plain", "delete",
                         "fork"])
        trail.append((op, len(path)))
        level, model, blocked = d, m, False
        for k in path[:-1]:
            if not isinstance(model.get(k, {}), dict) or (
                not isinstance(level, NestingDict) and k not in level
            ):
                blocked = True
                break
            level, model = level[k], model.setdefault(k, {})
            if not isinstance(level, dict):
                mon.fail("no intermediate level was created", path=path,
                         got=level)
        if blocked:
            continue
        last = path[-1]
        if op == "set":
            v = atom(rng)
            level[last], model[last] = v, v
        elif op == "plain":
            level[last] = {"p": {"q": 1}, "n": rng.choice([NestingDict, SubNesting])()}
            level[last]["n"]["x"]["y"] = 2
            model[last] = {"p": {"q": 1}, "n": {"x": {"y": 2}}}
        elif op == "touch" and isinstance(level, NestingDict):
            if last not in model:
                mon.check(isinstance(level[last], NestingDict) and
                          len(level[last]) == 0, "a created level",
                          got=level[last])
                model[last] = {}
            mon.ev("created_levels")
        elif op == "delete" and last in model:
            del level[last], model[last]
        elif op == "fork":
            d = rng.choice([copy.copy, lambda x: x])(d)
        mon.eq(plain(d), m, "content of a nesting dict", trail=trail)
        mon.eq(len(d), len(m), "length")
    mon.check(isinstance(d, NestingDict) and isinstance(d, dict), "type")
    mon.eq(eval(repr(d), {}) if "<" not in repr(d) and "nan" not in repr(d)
           else None, eval(repr(m), {}) if "<" not in repr(m) and
           "nan" not in repr(m) else None, "displayed content")
    out = d.todict()
    mon.check(type(out) is dict and no_nesting(out),
              "not plain dicts at every level", got=out)
    mon.eq(plain(out), m, "content of the plain dicts", trail=trail)
    mon.eq(plain(d), m, "content of the nesting dict after conversion")
    mon.check(isinstance(d, NestingDict), "type after conversion")
    # usable as before at the top
    d["brand new"]["level"]["z"] = 1
    mon.eq(plain(d["brand new"]), {"level": {"z": 1}}, "access afterwards")
    mon.ev("nesting_dicts")
    mon.sig("nest", trail)


# ---- insert_after and friends
def w_insert(mon, rng):
    keys = rng.sample(maps.KEYS + ["p", "q", "r"], rng.randint(1, 8))
    keys = list(dict.fromkeys(keys))
    items = [(k, atom(rng)) for k in keys]
    m = rng.choice(maps.DICTS + maps.OTHERS)(items)
    before = maps.snapshot(m)
    i = rng.randrange(len(items))
    new = rng.choice(["new", ("new",), 99, -0.5, "p_new"])
    value = atom(rng)
    prior = items[i][0]
    if rng.random() < 0.5:
        prior = maps.twin(prior)
    got = st.insert_after(new, value, prior, m)
    want = items[:i + 1] + [(new, value)] + items[i + 1:]
    mon.check(isinstance(got, Mapping) and list(got.keys()) ==
              [k for k, _ in want] and
              all(a is b for a, (_, b) in zip(got.values(), want)),
              "mapping after an insertion", got=got, want=want)
    mon.check(maps.snapshot(m) == before, "input was modified")
    mon.ev("inserts")
    mon.sig("ins", len(items), i)


CHECK = Check(
    "C17",
    [
        Workload(w_records, 8000, 200000,
                 {"records": 10000, "mixed_depths": 1000,
                  "colliding_names": 300}),
        Workload(w_unnest, 8000, 200000,
                 {"leaves": 10000, "colliding_leaves": 50}),
        Workload(w_rmerge, 8000, 200000,
                 {"merges": 4000, "merged_levels": 3000}),
        Workload(w_nesting, 5000, 120000,
                 {"nesting_dicts": 2000, "created_levels": 1000}),
        Workload(w_insert, 2500, 60000, {"inserts": 1000}),
    ],
    rule="a case is a random nest of mappings of several classes converted, "
         "unnested, merged or built up, compared with a recursive model by "
         "identity of the values, and its inputs compared before and after; "
         "distinct = distinct (operation, shape, options)",
    assumptions=["mappings that hold no fields at all yield no record",
                 "the key to insert is new and the prior key present"],
)
