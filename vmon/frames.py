"""generators of dataframes and series, and cell-by-cell comparison"""
import datetime as dt
import math

import numpy as np
import pandas as pd

from vmon import gen

MISSING = (None, float("nan"), pd.NaT, pd.NA)
NAMES = ["a", "b", "c", "A", "value", "variable", "x_1", "", " ", "é", "日本",
         "0", "name", "index", "level_0", "1", "sum", "T"]


def missing(x):
    return x is None or x is pd.NaT or x is pd.NA or (
        isinstance(x, (float, np.floating)) and x != x) or (
        isinstance(x, (np.datetime64, np.timedelta64)) and np.isnat(x))


def cell(x):
    """a comparable stand-in of a cell"""
    if missing(x):
        return "missing",
    if isinstance(x, np.generic):
        x = x.item()
    if isinstance(x, (list, tuple)):
        return "seq", tuple(cell(y) for y in x)
    if isinstance(x, np.ndarray):
        return "seq", tuple(cell(y) for y in x)
    if isinstance(x, float):
        return "number", float(x), math.copysign(1, x)
    return type(x).__name__, x


def cells(series):
    return [cell(x) for x in series]


def frame_cells(df):
    return [cells(df.iloc[:, i]) for i in range(df.shape[1])]


def labels(index):
    return [cell(x) for x in index], list(map(str, index.names))


def picture(obj):
    """everything observable of a frame or series"""
    if isinstance(obj, pd.Series):
        return ("series", str(obj.dtype), cell(obj.name), labels(obj.index),
                cells(obj))
    return ("frame", list(map(str, obj.dtypes)), labels(obj.index),
            labels(obj.columns), frame_cells(obj))


def numeric_array(rng, n, kinds="iufb"):
    kind = rng.choice(kinds)
    if kind == "b":
        return np.array([rng.random() < 0.5 for _ in range(n)], dtype=bool)
    if kind in "iu":
        width = rng.choice([1, 2, 4, 8])
        info = np.iinfo(f"{kind}{width}")
        style = rng.randrange(4)
        out = []
        for _ in range(n):
            if style == 0:
                v = rng.randint(0, 100)
            elif style == 1:
                v = rng.randint(info.min, info.max)
            elif style == 2:
                k = rng.choice([7, 8, 15, 16, 31, 32, 53, 63, 64])
                v = rng.choice([1, -1]) * (1 << k) + rng.randint(-2, 1)
            else:
                v = rng.randint(-3, 3)
            out.append(min(max(v, info.min), info.max))
        order = rng.choice(["<", "<", "<", ">"])
        return np.array(out, dtype=f"{order}{kind}{width}")
    width = rng.choice([2, 4, 4, 8, 8, 8, 16])
    return real_array(rng, n, width)


EDGES = [0.0, -0.0, 0.5, 1.0, -1.0, 255.0, 255.5, 256.0, -128.0, -129.0, 127.0,
         128.0, 65504.0, 65505.0, 65535.0, 65536.0, 2.0**31, 2.0**31 - 1,
         2.0**32, 2.0**32 - 1, -2.0**31 - 1, 2.0**24 + 1, 2.0**53, 2.0**63,
         2.0**64, -2.0**63, 1e-5, 5e-5, 1e-7, 1e-30, 1e-320, 3.4e38, 3.5e38,
         1e300, -1e300, 0.1, 1 / 3, 1e10 + 0.5, 6e-8, 5.96e-8, 70000.0,
         1.00001, 100.00004, 0.99999, 1e-4, 2048.5, 4097.0]


def real_array(rng, n, width):
    style = rng.randrange(6)
    out = []
    scale = 10.0 ** rng.randint(-8, 12)
    for _ in range(n):
        if style == 0:
            v = float(rng.randint(-300, 300))
        elif style == 1:
            v = rng.choice(EDGES)
        elif style == 2:
            v = rng.uniform(-1, 1) * scale
        elif style == 3:
            v = rng.randint(-1000, 70000) + rng.choice(
                [0, 0, 1e-6, 1e-5, 4e-5, -3e-6, 6e-5])
        elif style == 4:
            v = float(2 ** rng.randint(0, 66) + rng.randint(-1, 1))
        else:
            v = 0.0
        out.append(v)
    gaps = rng.choice([0, 0, 0, 0.1, 0.5, 1.0])
    bad = rng.choice([[math.nan], [math.inf, -math.inf],
                      [math.nan, math.inf, -math.inf]])
    out = [rng.choice(bad) if rng.random() < gaps else v for v in out]
    with np.errstate(all="ignore"):
        order = rng.choice(["<", "<", "<", ">"])
        a = np.array(out, dtype=float).astype(f"{order}f{width}")
    if gaps == 0:
        a = np.where(np.isfinite(a), a, np.array(1, dtype=a.dtype))
    return a


def index(rng, n):
    ix = plain_index(rng, n)
    if rng.random() < 0.15 and ix.nlevels == 1:
        # named like columns
        ix.name = rng.choice(NAMES + [0, 1, 7, "x.y", "two\nlines"])
    return ix


def plain_index(rng, n):
    style = rng.randrange(14)
    if style == 9:
        return pd.CategoricalIndex(
            [rng.choice("uvw") for _ in range(n)],
            categories=list("wvux"), ordered=rng.random() < 0.5)
    if style == 10:
        return pd.to_timedelta([rng.randint(-5, 5) for _ in range(n)],
                               unit="s")
    if style == 11:
        return pd.date_range("2020-01-01", periods=n, freq="h", tz="UTC")
    if style == 12:
        return pd.Index([rng.choice([gen.text(rng, 5), rng.choice(gen.NAMES)])
                         for _ in range(n)], dtype=object)
    if style == 13:
        return pd.Index([-1 - i for i in range(n)])
    if style <= 1:
        return pd.RangeIndex(n)
    if style == 2:
        return pd.RangeIndex(5, 5 + 3 * n, 3)
    if style == 3:
        return pd.Index([rng.choice("abc") for _ in range(n)], name=rng.choice(
            [None, "ix", ""]))
    if style == 4:
        return pd.Index([rng.randint(-2, 2) for _ in range(n)])
    if style == 5:
        return pd.Index([rng.choice([1.5, math.nan, 2.0]) for _ in range(n)],
                        dtype=float)
    if style == 6 and n:
        return pd.MultiIndex.from_tuples(
            [(rng.choice("ab"), rng.randint(0, 2)) for _ in range(n)],
            names=[None, "second"])
    if style == 7:
        return pd.Index([f"r{i}" for i in range(n)][::-1], name="rows")
    return pd.date_range("2020-01-01", periods=n)


def columns(rng, k, unique=True):
    style = rng.randrange(6)
    if style == 0:
        return list(range(k))
    if style == 1:
        pool = [1, "1", 2.5, ("a", 1), "a", None, True, "b", 7, -1, 300,
                2**40, dt.date(2020, 1, 1)]
    elif style == 2:
        pool = gen.NAMES + NAMES
    else:
        pool = NAMES
    out = []
    while len(out) < k:
        c = rng.choice(pool)
        if c in out and unique:
            c = f"{c}{len(out)}" if c in out else c
        out.append(c)
    return out


def other_column(rng, n):
    """a column that is not of a numpy number dtype"""
    kind = rng.randrange(7)
    if kind == 0:
        return pd.Series([rng.choice(["a", "b", "", None, "x" * 30])
                          for _ in range(n)], dtype=object)
    if kind == 1:
        return pd.Series([rng.choice(["a", "b", "é", None])
                          for _ in range(n)], dtype="str")
    if kind == 2:
        return pd.Series(pd.to_datetime(
            [rng.choice(["2020-01-01", None, "1999-12-31 23:59:59.123"])
             for _ in range(n)], format="mixed"), dtype="datetime64[ns]")
    if kind == 3:
        return pd.Series([dt.timedelta(rng.randint(-3, 3)) for _ in range(n)],
                         dtype="timedelta64[ns]")
    if kind == 4:
        return pd.Series([rng.choice(["u", "v"]) for _ in range(n)],
                         dtype="category")
    if kind == 5:
        return pd.Series([rng.choice([1, "a", None, 2.5, (1, 2), True])
                          for _ in range(n)], dtype=object)
    return pd.Series([rng.choice([b"a", b""]) for _ in range(n)],
                     dtype=object)


def frame(rng, n=None, k=None, numeric=0.5, kinds="iufb", unique=True):
    n = gen.size(rng, [0, 1, 2, 3, 5, 8, 20]) if n is None else n
    k = rng.choice([1, 1, 2, 3, 5]) if k is None else k
    ix = index(rng, n)
    cols = []
    for _ in range(k):
        if rng.random() < numeric:
            a = numeric_array(rng, n, kinds)
            if a.dtype.byteorder == ">" or a.dtype.itemsize == 16:
                a = a.astype(a.dtype.newbyteorder("=") if
                             a.dtype.itemsize < 16 else "f8")
            s = pd.Series(a)
        else:
            s = other_column(rng, n)
        cols.append(s.set_axis(ix))
    names = columns(rng, k, unique)
    df = pd.concat(cols, axis=1) if cols else pd.DataFrame(index=ix)
    df.columns = pd.Index(names, dtype=object) if any(
        not isinstance(c, (str, int)) for c in names) else pd.Index(names)
    return df
