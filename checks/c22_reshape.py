"""C22: reshaping of frames and series vs row-by-row oracles"""
import math
from collections import Counter

import numpy as np
import pandas as pd

from dustgoggles import pivot
from vmon import frames, gen
from vmon.core import Check, Workload


def loose(x):
    """a cell without the number type that a mixed column may change"""
    c = frames.cell(x)
    if c[0] in ("number", "int", "bool"):
        return "n", float(c[1]) if abs(c[1]) < 2**53 or c[0] == "number" \
            else c[1]
    if c[0] == "seq":
        return "seq", tuple(map(repr, c[1]))
    return c


def bag(items):
    return Counter(map(repr, items))


def small(rng, n):
    """a column of one type, with values a float column can hold"""
    return rng.choice([
        lambda: [rng.randint(-5, 5) for _ in range(n)],
        lambda: [rng.choice([0.5, -1.25, 1e300, 3.0]) for _ in range(n)],
        lambda: [rng.choice("abc") for _ in range(n)],
        lambda: [rng.random() < 0.5 for _ in range(n)],
        lambda: [2**40 + rng.randint(0, 3) for _ in range(n)],
        lambda: [rng.choice(TEXTS) for _ in range(n)],
    ])()


TEXTS = [t for t in dict.fromkeys(gen.NAMES + gen.STR_POOL)
         if "\0" not in t]


def holes(rng, items):
    return [rng.choice([None, math.nan]) if rng.random() < 0.25 else x
            for x in items]


def names_of(rng, k):
    if k > 7:
        return [f"c{i}" for i in range(k)]
    pool = rng.choice([frames.NAMES, list(range(12)), TEXTS,
                       [0, 1, "a", "b", "value", "variable", "__x", -1, 300,
                        2**40]])
    return rng.sample(pool, k)


# ---- smash
def w_smash(mon, rng):
    n = gen.size(rng, [0, 1, 2, 3, 6])
    k = gen.size(rng, [1, 2, 3, 5], 0.01, (12, 40))
    nby = rng.randint(0, min(k, 3))
    names = names_of(rng, k)
    data = {}
    for c in names:
        vals = small(rng, n)
        data[c] = vals
    by = rng.sample(names, nby)
    for c in names:
        if c not in by and rng.random() < 0.3:
            data[c] = holes(rng, data[c])
    df = pd.DataFrame(data, columns=names,
                      index=frames.index(rng, n)[:n] if n else None)
    if n:
        for c in names:
            df[c] = data[c]
    if rng.random() < 0.2:
        df.columns.name = rng.choice(["columns", "variable", "x"])
    rows = range(n)
    values = None
    if rng.random() < 0.4 and nby and n:
        if rng.random() < 0.5:
            values = [x for c in by for x in set(data[c])]
            values = rng.sample(values, rng.randint(0, len(values)))
            rows = [i for i in rows if all(
                any(same_scalar(data[c][i], v) for v in values) for c in by)]
        else:
            values = {c: rng.sample(list(dict.fromkeys(data[c])), rng.randint(
                0, len(set(data[c])))) for c in by}
            rows = [i for i in rows if all(
                data[c][i] in values[c] for c in by)]
        if any(isinstance(v, (bool, str)) for v in map(
                lambda v: v, values)) and not isinstance(values, dict):
            kinds = {type(v) for v in values} | {
                type(x) for c in by for x in data[c]}
            if len(kinds) > 1:
                return  # pandas' isin coerces mixed lists
    before = frames.picture(df)
    arg = by[0] if len(by) == 1 and rng.random() < 0.5 else by
    if isinstance(arg, tuple) or arg is None:
        arg = by
    out = pivot.smash(df, arg, values) if values is not None or \
        rng.random() < 0.3 else pivot.smash(df, arg)
    mon.check(frames.picture(df) == before, "input modified")
    rest = [c for c in names if c not in by]
    want = [("_".join([str(data[c][i]) for c in by] + [str(r)]),
             loose(data[r][i])) for r in rest for i in rows]
    got = list(zip(out.index, map(loose, out)))
    mon.eq(bag(got), bag(want), "labels and values", by=by, values=values,
           df=df)
    mon.ev("smashed", len(got))
    mon.ev("restricted", values is not None)
    mon.sig("smash", n, k, nby, type(values).__name__, len(got),
            tuple(map(str, df.dtypes)))
    mon.sample(f"by={by} of {names}: {got[:3]}")


def same_scalar(a, b):
    return a == b


# ---- unpack
def listlikes(rng, n):
    width = gen.size(rng, [0, 1, 2, 3, 5], 0.01, (11, 70, 130))
    ragged = rng.random() < 0.3
    kind = rng.choice([list, tuple, np.array, "mixed"])
    out = []
    for _ in range(n):
        if rng.random() < 0.25:
            out.append(rng.choice([None, math.nan]))
            continue
        w = rng.randint(0, width) if ragged else width
        items = small(rng, w) if kind is not np.array else [
            rng.randint(0, 9) for _ in range(w)]
        if kind == "mixed" and w and rng.random() < 0.3:
            items[rng.randrange(w)] = rng.choice([None, [1, 2], "x"])
        make = rng.choice([list, tuple]) if kind == "mixed" else kind
        if make is np.array and ragged:
            make = list
        out.append(make(items))
    return out


def elements(cells):
    there = [(i, list(x)) for i, x in enumerate(cells)
             if not (x is None or isinstance(x, float))]
    width = max((len(x) for _, x in there), default=0)
    return there, width


def series_of(cells, index, name):
    held = np.empty(len(cells), dtype=object)
    for i, x in enumerate(cells):
        held[i] = x
    return pd.Series(held, index=index, name=name)


def w_unpack(mon, rng):
    n = gen.size(rng, [0, 1, 2, 3, 8])
    cells = listlikes(rng, n)
    ix = frames.index(rng, n)
    name = rng.choice(["q", "", 5, None, "a b", "q_0", rng.choice(TEXTS)])
    s = series_of(cells, ix, name)
    before = frames.picture(s)
    out = pivot.unpack(s)
    mon.check(frames.picture(s) == before, "input modified")
    there, width = elements(cells)
    mon.eq(list(out.columns), [f"{name}_{i}" for i in range(width)],
           "names of the columns")
    if there:
        mon.eq(frames.labels(out.index)[0],
               frames.labels(ix[[i for i, _ in there]])[0], "rows", cells=cells)
    got = [[loose(out.iat[r, c]) for c in range(width)]
           for r in range(len(out))] if width else []
    want = [[loose(x[c]) if c < len(x) else ("missing",)
             for c in range(width)] for _, x in there] if width else []
    mon.eq(list(map(repr, got)), list(map(repr, want)), "elements",
           cells=cells)
    mon.ev("unpacked_rows", len(there))
    mon.ev("dropped_rows", n - len(there))
    mon.sig("unpack", n, len(there), width)


def w_unpack_column(mon, rng):
    n = gen.size(rng, [0, 1, 2, 3, 8])
    cells = listlikes(rng, n)
    ix = frames.index(rng, n)
    name = rng.choice(["q", "a b", "z", "0", "index", "é"])
    others = rng.sample(["a", "b", "c", "q1", 7, "q__0", "level_0", "x.y",
                         "long " * 20, "self"], rng.randint(0, 3))
    if rng.random() < 0.02:
        others = [f"c{i}" for i in range(rng.choice([12, 70]))]
    data = {c: small(rng, n) for c in others}
    at = rng.randint(0, len(others))
    order = others[:at] + [name] + others[at:]
    cols = {c: (series_of(cells, ix, c) if c == name else
                pd.Series(data[c], index=ix)) for c in order}
    df = pd.concat(list(cols.values()), axis=1)
    df.columns = pd.Index(order)
    if rng.random() < 0.2 and n > 1:
        df = df.sort_index(kind="stable") if df.index.nlevels == 1 and not \
            df.index.hasnans else df
        cells = list(df[name])
        data = {c: list(df[c]) for c in others}
        ix = df.index
    out = pivot.unpack_column(df, name)
    there, width = elements(cells)
    mon.eq([str(c) for c in out.columns],
           [str(c) for c in others] + [f"{name}_{i}" for i in range(width)],
           "columns", df=df)
    mon.eq(frames.labels(out.index), frames.labels(ix), "rows")
    for j, c in enumerate(others):
        mon.eq([loose(x) for x in out.iloc[:, j]],
               [loose(x) for x in data[c]], "another column", column=c,
               df=df)
    items = dict(there)
    for i in range(n):
        got = [loose(out.iat[i, len(others) + j]) for j in range(width)]
        x = items.get(i, [])
        want = [loose(x[j]) if j < len(x) else ("missing",)
                for j in range(width)]
        mon.eq(repr(got), repr(want), "elements of a row", row=i, df=df)
    mon.ev("unpacked_columns", width)
    mon.ev("repeated_labels", not ix.is_unique)
    mon.sig("unpack_column", n, len(there), width, len(others),
            ix.is_unique)


# ---- rows
def w_dupe(mon, rng):
    df = frames.frame(rng, unique=rng.random() < 0.7,
                      k=rng.choice([0, 1, 2, 3]))
    if rng.random() < 0.004:  # beyond two bytes
        df = pd.DataFrame({"x": np.arange(rng.choice([33000, 66000]))})
    n, times = len(df), rng.choice([0, 1, 2, 3, 7])
    before = frames.picture(df)
    out = pivot.dupe_df_block(df, times)
    mon.check(frames.picture(df) == before, "input modified")
    mon.eq(frames.labels(out.columns)[0], frames.labels(df.columns)[0],
           "columns")
    mon.eq(len(out), n * times, "number of rows")
    for j in range(df.shape[1]):
        want = [loose(df.iat[i, j]) for i in range(n) for _ in range(times)]
        got = [loose(x) for x in out.iloc[:, j]]
        mon.check(list(map(repr, got)) == list(map(repr, want)),
                  "cells of repeated rows", got=got, want=want)
    mon.ev("repeated_rows", n * times)
    mon.sig("dupe", df.shape, times, tuple(map(str, df.dtypes)))


def some_names(rng):
    pool = rng.choice([list("abcdef"), frames.NAMES, [0, 1, "a", "1", -5, 2**40],
                       [n for n in TEXTS if n]])
    names = rng.sample(pool, rng.randint(1, 4))
    if rng.random() < 0.02:
        names = [f"c{i}" for i in range(rng.choice([12, 40]))]
    return names


def tuple_frame(rng, names):
    n = gen.size(rng, [0, 1, 2, 5, 12])
    data = {}
    for c in names:
        kind = sum(map(ord, str(c))) % 5
        data[c] = [{
            0: lambda: rng.choice([0, 1, 2, -1, 300]),
            1: lambda: rng.choice(["a", "b", "", "A", "a ", "é", "e\u0301",
                                   "None", "nan", "1"]),
            2: lambda: rng.choice([0.5, 1.0]), 3: lambda: rng.random() < 0.5,
            4: lambda: 2**60 + rng.randint(0, 1),
        }[kind]() for _ in range(n)]
    df = pd.DataFrame(data, columns=names)
    for c in names:
        if rng.random() < 0.25 and n:
            df[c] = df[c].astype(object).where(
                [rng.random() < 0.8 for _ in range(n)], None)
            data[c] = list(df[c])
        elif rng.random() < 0.2:
            extra = [x for x in ["zz", 99]]
            kind = {type(x) for x in data[c]}
            pool = list(dict.fromkeys(data[c])) + [
                x for x in extra if kind and type(x) in kind]
            df[c] = pd.Categorical(data[c], categories=pool)
    df.index = frames.index(rng, n)
    return df, data


def tuples(data, cols):
    rows = list(zip(*(data[c] for c in cols)))
    return {r for r in rows if not any(map(frames.missing, r))}


def w_junction(mon, rng):
    names = some_names(rng)
    cols = rng.sample(names, rng.randint(1, len(names)))
    one, data1 = tuple_frame(rng, names)
    two, data2 = tuple_frame(rng, names[::-1])
    before = frames.picture(one), frames.picture(two)
    arg = rng.choice([list, tuple])(cols)
    op = rng.choice(["difference", "union", "intersection",
                     "symmetric_difference", None])
    got = pivot.junction(one, two, arg) if op is None else pivot.junction(
        one, two, arg, rng.choice([op]))
    want = getattr(tuples(data1, cols), op or "difference")(
        tuples(data2, cols))
    mon.check(isinstance(got, set) and got == want, "junction", got=got,
              want=want, op=op)
    mon.check((frames.picture(one), frames.picture(two)) == before,
              "input modified")
    mon.ev("junctions")
    mon.ev("shared_tuples", len(got))
    mon.sig("junction", op, len(one), len(two), len(got), len(cols))


def w_records(mon, rng):
    names = some_names(rng)
    cols = rng.sample(names, rng.randint(1, len(names)))
    df, data = tuple_frame(rng, names)
    before = frames.picture(df)
    out = pivot.unique_to_records(df, cols)
    mon.check(frames.picture(df) == before, "input modified")
    want = tuples(data, cols)
    mon.eq(len(out), len(want), "number of records", df=df)
    if want:
        mon.eq(list(out.columns), cols, "columns")
        rows = set(zip(*(list(out[c]) for c in cols)))
        mon.check(rows == want, "records", got=rows, want=want)
    mon.ev("records", len(out))
    mon.sig("records", len(df), len(want), len(cols))


# ---- squeeze
def w_squeeze(mon, rng):
    n = gen.size(rng, [0, 1, 2, 3, 6, 12], 0.02)
    vals = rng.choice([
        lambda: [rng.randint(-5, 50) for _ in range(n)],
        lambda: [rng.random() < 0.3 for _ in range(n)],
        lambda: [rng.random() < 0.3 for _ in range(n)],
        lambda: [rng.choice([0.5, 1.25, -2.0]) for _ in range(n)],
        lambda: [rng.choice([0.5, math.inf, -2.0]) for _ in range(n)],
        lambda: [rng.choice("abc") for _ in range(n)],
        lambda: [2**60 + rng.randint(0, 9) for _ in range(n)],
    ])()
    ix = frames.index(rng, n)
    if n and rng.random() < 0.6:
        lab = rng.choice([["a", "b"], [1, 2], [1.5, -3.5], [True, False]])
        ix = pd.Index([rng.choice(lab) for _ in range(n)], name=rng.choice(
            [None, "ix", "index", 0, "s"]))
    name = rng.choice([None, "s", "index", 0, "ix", ""])
    dtype = None
    holed = bool(vals) and type(vals[0]) in (float, str) and (
        rng.random() < 0.3)
    if holed:
        vals = holes(rng, vals)
    if vals and type(vals[0]) is bool and rng.random() < 0.2:
        dtype = "boolean"
    elif holed:
        dtype = object if rng.random() < 0.3 else None
    elif vals and type(vals[0]) is str and rng.random() < 0.3:
        dtype = rng.choice([object, "category", "str"])
    elif vals and type(vals[0]) is int and rng.random() < 0.2:
        dtype = "Int64"
    s = pd.Series(vals, index=ix, name=name, dtype=dtype)
    groups = {}
    for lab, x in zip(ix, vals):
        groups.setdefault(frames.cell(lab), []).append(x)
    number = bool(vals) and {type(x) for x in vals} <= {int, float}
    agg = rng.choice([None, None, "sum", "max", "min", "first", "last",
                      "count", "mean", max]) if number else \
        rng.choice([None, None, "first", "last", "count"])
    if holed:  # aggregates ignore missing values in ways of their own
        agg = None
    if agg == "sum" and type(vals[0]) is int and max(vals) > 2**50:
        agg = "max"
    before = frames.picture(s)
    got = pivot.squeeze(s) if agg is None else pivot.squeeze(s, agg) if \
        rng.random() < 0.5 else pivot.squeeze(s, aggfunc=agg)
    mon.check(frames.picture(s) == before, "input modified")
    is_bool = s.dtype == bool or str(s.dtype) == "boolean"
    f = {None: any if is_bool else lambda g: g[0], "sum": sum, "max": max,
         max: max, "min": min, "first": lambda g: g[0],
         "last": lambda g: g[-1], "count": len,
         "mean": lambda g: sum(g) / len(g)}[agg]
    lost = ix.hasnans if ix.nlevels == 1 else False
    if agg is not None or is_bool:
        groups = {k: v for k, v in groups.items() if k != ("missing",)}
    else:
        lost = False
    labs = [frames.cell(x) for x in got.index]
    mon.check(len(set(labs)) == len(labs), "a label twice", got=labs)
    mon.check(set(labs) == set(groups), "labels", got=labs,
              want=list(groups), had_missing=lost)
    for lab, x in zip(labs, got):
        want = f(groups[lab])
        if frames.missing(want):
            mon.check(frames.missing(x), "missing value of a label", got=x)
            mon.ev("missing_firsts")
            continue
        if agg == "mean":
            mon.check(math.isclose(x, want, rel_tol=1e-9), "mean", got=x,
                      want=want)
        else:
            mon.check(x == want and isinstance(x, str) == isinstance(
                want, str), "value of a label", got=x, want=want, label=lab,
                agg=agg)
    mon.eq(frames.cell(got.name), frames.cell(name), "name of the series")
    mon.eq(list(map(str, got.index.names)), list(map(str, ix.names)),
           "names of the levels")
    mon.ev("labels_kept", len(labs))
    mon.ev("labels_merged", n - len(labs))
    mon.ev("bools_squeezed", is_bool)
    mon.sig("squeeze", n, len(labs), str(agg), str(s.dtype), str(name),
            str(ix.name))


# ---- string methods
def w_pdstr(mon, rng):
    n = rng.randint(0, 5)
    vals = [rng.choice(["a", "Bc", "", "  x ", "É", "a1b2", "%"])
            for _ in range(n)]
    s = pd.Series(vals, dtype=rng.choice([object, "str"]),
                  index=frames.index(rng, n))
    method, args, kw, f = rng.choice([
        ("upper", (), {}, str.upper), ("strip", (), {}, str.strip),
        ("startswith", ("a",), {}, lambda x: x.startswith("a")),
        ("replace", ("a", "z"), {"regex": False},
         lambda x: x.replace("a", "z")),
        ("len", (), {}, len), ("zfill", (5,), {}, lambda x: x.zfill(5)),
        ("slice", (), {"start": 1}, lambda x: x[1:]),
        ("contains", (), {"pat": "%", "regex": False}, lambda x: "%" in x),
    ])
    op = pivot.pdstr(method, *args, **kw)
    for _ in range(2):
        got = op(s)
        mon.eq([frames.cell(x) for x in got], [frames.cell(f(x))
                                               for x in vals],
               "string method", method=method)
    mon.ev("string_methods")
    mon.sig("pdstr", method, n)


CHECK = Check(
    "C22",
    [
        Workload(w_smash, 2500, 60000, {"smashed": 5000, "restricted": 200}),
        Workload(w_unpack, 2500, 60000,
                 {"unpacked_rows": 2000, "dropped_rows": 300}),
        Workload(w_unpack_column, 2500, 60000,
                 {"unpacked_columns": 1500, "repeated_labels": 300}),
        Workload(w_dupe, 1500, 40000, {"repeated_rows": 5000}),
        Workload(w_junction, 2000, 50000,
                 {"junctions": 1500, "shared_tuples": 1000}),
        Workload(w_records, 2000, 50000, {"records": 2000}),
        Workload(w_squeeze, 4000, 120000,
                 {"labels_kept": 4000, "labels_merged": 2000,
                  "bools_squeezed": 400}),
        Workload(w_pdstr, 500, 10000, {"string_methods": 400}),
    ],
    rule="a case is one reshaping of a random frame or series, every cell of "
         "the result compared with the cell of the input it stands for; "
         "distinct = distinct (shape, types, options, outcome)",
    assumptions=["numbers are compared by value where pandas must find one "
                 "type for a column", "columns to smash by hold no missing "
                 "values"],
)
