"""C21: selection of columns and rows vs cell-by-cell oracles"""
import datetime as dt
import math

import numpy as np
import pandas as pd

from dustgoggles import pivot
from vmon import frames, gen
from vmon.core import Check, Workload


def scalar_column(rng, n):
    """columns that are often constant, or constant but for a cell"""
    pool = rng.choice([
        [0, 1, -5, 2**40], [0.0, 1.5, -0.0, 1e300], ["a", "b", "", "é"],
        [True, False], [dt.datetime(2020, 1, 1), dt.datetime(1999, 5, 5, 5)],
        [b"a", b"b"], [1, 1.0, True, "1"], [math.inf, -math.inf, 0.0],
        [pd.Timedelta(1), pd.Timedelta(2)],
    ])
    style = rng.randrange(5)
    base = rng.choice(pool)
    out = [base] * n
    if style == 1 and n:
        out[rng.randrange(n)] = rng.choice(pool)
    elif style == 2 and n:
        out[-1] = rng.choice(pool)
    elif style == 3:
        out = [rng.choice(pool) for _ in range(n)]
    s = pd.Series(out, dtype=None if rng.random() < 0.7 else object)
    if rng.random() < 0.4 and n:
        mask = np.array([rng.random() < rng.choice([0.2, 0.9])
                         for _ in range(n)])
        if rng.random() < 0.1:
            mask[:] = True
        if s.dtype.kind in "iub":
            s = s.astype(rng.choice([object, object, "f8"]) if
                         s.dtype.kind != "b" else object)
        s = s.mask(mask, rng.choice([None, np.nan])
                   if s.dtype == object else np.nan)
    elif rng.random() < 0.15 and s.dtype.kind in "O":
        s = s.map(str).astype("category")
    return s


def scalar_frame(rng, unique=True):
    n = gen.size(rng, [0, 1, 1, 2, 3, 5, 12])
    k = rng.choice([0, 1, 2, 3, 5])
    ix = frames.index(rng, n)
    cols = [scalar_column(rng, n).set_axis(ix) for _ in range(k)]
    df = pd.concat(cols, axis=1) if cols else pd.DataFrame(index=ix)
    df.columns = labels(rng, k, unique)
    return df


def labels(rng, k, unique=True):
    names = [c for c in frames.columns(rng, k, unique)]
    names = [f"t{i}" if isinstance(c, (tuple, bool)) else c
             for i, c in enumerate(names)]
    if rng.random() < 0.1 and k:
        return pd.MultiIndex.from_tuples(
            [("m", i if unique else i // 2) for i in range(k)])
    return pd.Index(names, dtype=object) if any(
        not isinstance(c, (str, int)) for c in names) else pd.Index(names)


def equal(a, b):
    try:
        return bool(a == b)
    except TypeError:
        return False


def is_constant(items, dropna):
    if dropna:
        items = [x for x in items if not frames.missing(x)]
    return all(not frames.missing(x) and equal(x, items[0]) for x in items)


def w_constants(mon, rng):
    df = scalar_frame(rng, unique=rng.random() < 0.85)
    how = rng.choice(["rows", "rows", "columns"])
    opts = {"how": how} if how == "columns" or rng.random() < 0.3 else {}
    for name in ("to_dict", "drop_constants", "dropna"):
        if rng.random() < 0.5:
            opts[name] = rng.random() < 0.5
    dropna = opts.get("dropna", True)
    if how == "rows":
        lines = [list(df.iloc[:, i]) for i in range(df.shape[1])]
        names = list(df.columns)
    else:
        lines = [[df.iloc[i, j] for j in range(df.shape[1])]
                 for i in range(df.shape[0])]
        names = list(df.index)
    if not dropna and any(x and all(map(frames.missing, x)) for x in lines):
        return
    if how == "columns" and any(
            str(t) in ("category",) for t in df.dtypes):
        return
    if opts.get("to_dict", True) and how == "columns" and len(
            set(map(frames.cell, names))) < len(names):
        opts["to_dict"] = False
    if opts.get("to_dict", True) and how == "rows" and not \
            df.columns.is_unique:
        opts["to_dict"] = False
    before = frames.picture(df)
    constants, rest = pivot.extract_constants(df, **opts)
    mon.check(frames.picture(df) == before, "input modified", opts=opts)
    flags = [is_constant(line, dropna) for line in lines]
    yes = [i for i, f in enumerate(flags) if f]
    no = [i for i, f in enumerate(flags) if not f]
    if opts.get("to_dict", True):
        mon.check(type(constants) is dict, "a dict", got=type(constants))
        mon.eq([frames.cell(k) for k in constants],
               [frames.cell(names[i]) for i in yes],
               "names of the constants", df=df, opts=opts)
        for i, v in zip(yes, constants.values()):
            there = [x for x in lines[i] if not frames.missing(x)]
            if there:
                mon.check(equal(v, there[0]), "value of a constant", got=v,
                          want=there[0], df=df, opts=opts)
            else:
                mon.check(frames.missing(v), "value of a missing constant",
                          got=v, df=df)
                mon.ev("missing_constants")
    else:
        want = df.iloc[:, yes] if how == "rows" else df.iloc[yes]
        mon.eq(frames.picture(constants), frames.picture(want),
               "frame of constants", opts=opts)
    want = df
    if opts.get("drop_constants", False):
        want = df.iloc[:, no] if how == "rows" else df.iloc[no]
    mon.eq(frames.picture(rest), frames.picture(want), "remaining frame",
           opts=opts)
    mon.ev("constant_lines", len(yes))
    mon.ev("variable_lines", len(no))
    mon.sig("constants", df.shape, tuple(flags), tuple(sorted(
        opts.items())), tuple(map(str, df.dtypes)))
    mon.sample(f"{df.shape} {opts} -> {len(yes)} constant")


def w_how(mon, rng):
    df = scalar_frame(rng)
    how = rng.choice(["row", "", "column", None, "ROWS"])
    mon.raises(ValueError, lambda: pivot.extract_constants(df, how=how),
               "unknown direction")
    mon.ev("unknown_directions")


def w_split(mon, rng):
    df = frames.frame(rng, unique=rng.random() < 0.7)
    n = len(df)
    flags = [rng.random() < rng.choice([0.1, 0.5, 0.9]) for _ in range(n)]
    if rng.random() < 0.2:
        flags = [rng.random() < 0.5] * n
    predicate = rng.choice([
        lambda: pd.Series(flags, index=df.index, dtype=bool),
        lambda: pd.Series(flags, index=df.index, dtype="boolean"),
        lambda: np.array(flags, dtype=bool),
    ])()
    before = frames.picture(df)
    yes, no = pivot.split_on(df, predicate)
    mon.check(frames.picture(df) == before, "input modified")
    for name, got, keep in (("chosen", yes, True), ("others", no, False)):
        want = df.iloc[[i for i in range(n) if flags[i] == keep]]
        mon.eq(frames.picture(got), frames.picture(want), f"{name} rows")
    mon.ev("splits")
    mon.sig("split", df.shape, tuple(flags))


TYPENAMES = ["int", "float", "object", "str", "bool", "datetime", "timedelta",
             "category", "int8", "float64", "Int", "FLOAT", "uint", "complex",
             "uint8", "period", "f"]


def w_typed(mon, rng):
    df = frames.frame(rng, unique=rng.random() < 0.6, k=rng.choice(
        [0, 1, 2, 4, 7]))
    if rng.random() < 0.3 and df.shape[1]:
        i = rng.randrange(df.shape[1])
        if df.dtypes.iloc[i].kind in "iu" and df.columns.is_unique:
            df[df.columns[i]] = df.iloc[:, i].astype(
                "UInt64" if df.dtypes.iloc[i].kind == "u" else "Int64")
    if rng.random() < 0.3:
        # types named after the type of something else
        n = len(df)
        made = rng.choice([
            lambda: pd.arrays.SparseArray([1] * n, dtype=rng.choice(
                ["Sparse[int64]", "Sparse[float64]", "Sparse[uint8]"])),
            lambda: pd.array(pd.interval_range(0, n) if n else [],
                             dtype="interval[int64, right]"),
            lambda: pd.Categorical(["int", "float", "bool"] * n).take(
                range(n)),
            lambda: pd.period_range("2020", periods=n, freq="D").array])()
        df = pd.concat([df, pd.Series(made, df.index, name=rng.choice(
            ["new", "int64", 77]))], axis=1)
        mon.ev("compound_types")
    before = frames.picture(df)
    if rng.random() < 0.4:
        got = pivot.numeric_columns(df)
        names = ["int", "float"]
    else:
        names = [rng.choice(TYPENAMES) for _ in range(rng.randint(1, 3))]
        got = pivot.typed_columns(df, rng.choice(
            [tuple, list])(names) if len(names) > 1 or rng.random() < 0.5
            else names[0])
    mon.check(frames.picture(df) == before, "input modified")
    keep = []
    for i in range(df.shape[1]):
        name = df.dtypes.iloc[i].name.lower()
        if any(name.startswith(t) or name.startswith("u" + t)
               for t in map(str.lower, names)):
            keep.append(i)
    mon.eq(frames.picture(got), frames.picture(df.iloc[:, keep]),
           "columns by type", names=names, dtypes=list(df.dtypes))
    if df.shape[1] > 0 and rng.random() < 0.4:
        # a single column
        i = rng.randrange(df.shape[1])
        col = df.iloc[:, i]
        before = frames.picture(col.to_frame())
        got = pivot.typed_columns(col, names)
        want = col if i in keep else pd.DataFrame(index=df.index)
        mon.check(type(got) is type(want), "selection from a series",
                  got=got, names=names, dtype=col.dtype)
        mon.eq(*(frames.picture(x.to_frame() if x.ndim == 1 else x)
                 for x in (got, want)), "selection from a series",
               names=names, dtype=col.dtype)
        mon.eq(frames.picture(col.to_frame()), before, "series modified")
        mon.ev("series_selected" if i in keep else "series_left")
    mon.ev("columns_chosen", len(keep))
    mon.ev("columns_left", df.shape[1] - len(keep))
    mon.sig("typed", tuple(map(str, df.dtypes)), tuple(names))


def w_duplicates(mon, rng):
    n = gen.size(rng, [0, 1, 2, 3, 8])
    k = rng.choice([1, 2, 3, 4])
    ix = frames.index(rng, n)
    base = [scalar_column(rng, n) for _ in range(k)]
    names = list(labels(rng, k))
    picks = list(range(k)) + [rng.randrange(k)
                              for _ in range(rng.choice([0, 1, 1, 2, 4]))]
    rng.shuffle(picks)
    cols, labs = [], []
    for i in picks:
        s = base[i].copy()
        if rng.random() < 0.3 and s.dtype.kind in "ifb":
            s = s.astype(object)
        if rng.random() < 0.2 and n and labs.count(names[i]):
            # differs in one cell
            j = rng.randrange(n)
            s = s.astype(object)
            s.iloc[j] = rng.choice([None, "other", 12345, math.nan])
        cols.append(s.set_axis(ix))
        labs.append(names[i])
    df = pd.concat(cols, axis=1)
    df.columns = pd.Index(labs, dtype=object) if not isinstance(
        labs[0], tuple) else pd.MultiIndex.from_tuples(labs)
    first, clash = [], False
    for i, lab in enumerate(labs):
        j = next(j for j in range(i + 1)
                 if frames.cell(labs[j]) == frames.cell(lab))
        if i == j:
            first.append(i)
            continue
        for a, b in zip(df.iloc[:, i], df.iloc[:, j]):
            if frames.missing(a) or frames.missing(b):
                clash |= frames.missing(a) != frames.missing(b)
            else:
                clash |= not equal(a, b)
    before = frames.picture(df)
    if clash:
        mon.raises(ValueError, lambda: pivot.check_and_drop_duplicate_columns(
            df), "differing columns of one name", df=df)
        mon.ev("clashes")
    else:
        got = pivot.check_and_drop_duplicate_columns(df)
        mon.eq(frames.picture(got), frames.picture(df.iloc[:, first]),
               "columns kept", df=df)
        mon.ev("duplicates_dropped", len(labs) - len(first))
    mon.check(frames.picture(df) == before, "input modified")
    mon.sig("duplicates", len(labs), len(first), clash, n)


def w_itemize(mon, rng):
    import datetime
    pairs = [
        (np.int8(-5), -5), (np.uint64(2**64 - 1), 2**64 - 1),
        (np.float64(0.1), 0.1), (np.float32(0.5), 0.5), (np.float16(2), 2.0),
        (np.bool_(True), True), (np.bool_(False), False),
        (np.str_("é"), "é"), (np.bytes_(b"a"), b"a"),
        (np.complex64(1 + 2j), 1 + 2j), (np.float64("inf"), math.inf),
        (np.int64(-2**63), -2**63),
        (np.datetime64("2020-01-01", "D"), datetime.date(2020, 1, 1)),
        (np.timedelta64(5, "s"), datetime.timedelta(seconds=5)),
    ]
    given, want = rng.choice(pairs)
    got = pivot.itemize_numpy(given)
    mon.check(type(got) is type(want) and got == want, "scalar", got=got,
              want=want)
    a = np.array(rng.choice([[1], [True], [1.5]]))[0]
    mon.check(not isinstance(pivot.itemize_numpy(a), np.generic) and
              pivot.itemize_numpy(a) == a, "element of an array")
    other = rng.choice([
        lambda: gen.picklable(rng), lambda: np.arange(3), lambda: [np.int8(1)],
        lambda: None, lambda: pd.Series([1]), lambda: np.dtype("i4"),
        lambda: np.array(5), lambda: np.int64, lambda: pd.Timestamp(0),
    ])()
    if not isinstance(other, np.generic):
        mon.check(pivot.itemize_numpy(other) is other, "other object",
                  got=other)
        mon.ev("other_objects")
    mon.ev("scalars")
    mon.sig("itemize", type(given).__name__, type(other).__name__)


CHECK = Check(
    "C21",
    [
        Workload(w_constants, 6000, 160000,
                 {"constant_lines": 2000, "variable_lines": 2000,
                  "missing_constants": 50}),
        Workload(w_how, 50, 500, {"unknown_directions": 30}),
        Workload(w_split, 2000, 50000, {"splits": 1000}),
        Workload(w_typed, 3000, 80000,
                 {"columns_chosen": 1500, "columns_left": 1500,
                  "compound_types": 300}),
        Workload(w_duplicates, 3000, 80000,
                 {"clashes": 200, "duplicates_dropped": 700}),
        Workload(w_itemize, 1000, 30000, {"scalars": 500,
                                          "other_objects": 500}),
    ],
    rule="a case is one selection from a random frame, compared cell by cell "
         "(values, labels, dtypes, order) with a selection by position; "
         "distinct = distinct (shape, types, outcome, options)",
    assumptions=["cells are scalars; without dropna no column is all missing "
                 "or nullable", "predicates are boolean without missing "
                 "values", "flat column labels are no tuples or bools"],
)
