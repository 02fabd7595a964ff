"""C20: downcast results vs exact arithmetic"""
import math
from fractions import Fraction

import numpy as np
import pandas as pd

from dustgoggles import pivot
from vmon import frames, gen
from vmon.core import Check, Workload

SLACK = Fraction(1, 256)  # of a reported bound: they may be narrow floats


def rounding(arr):
    """
    of relative errors found at an array's precision. absolute ones are
    exact at any: numbers and what they round to are that close.
    """
    return Fraction(1, {2: 2**9, 4: 2**22, 8: 2**51}[min(arr.itemsize, 8)])


def exact(x):
    return Fraction(*x.as_integer_ratio()) if hasattr(
        x, "as_integer_ratio") else Fraction(int(x))


def width(dtype):
    dtype = getattr(dtype, "numpy_dtype", dtype)
    return dtype.itemsize


def narrower(arr, atol, rtol, nullable):
    """a type narrower than that of a float array that is good enough"""
    finite = arr[np.isfinite(arr)]
    if not len(finite):
        return None
    lo, hi = exact(finite.min()), exact(finite.max())
    wide = finite.astype("g")
    whole = len(finite) == len(arr) or nullable
    for kind in "uif" if whole else "f":
        for size in (1, 2, 4, 8):
            if size >= arr.dtype.itemsize or (kind, size) == ("f", 1):
                continue
            dt = np.dtype(f"{kind}{size}")
            info = np.finfo(dt) if kind == "f" else np.iinfo(dt)
            if lo < exact(info.min) or hi > exact(info.max):
                continue
            with np.errstate(all="ignore"):
                off = np.abs(wide - finite.astype(dt).astype("g"))
                rel = off / np.where(wide == 0, 1, np.abs(wide))
            slack = 1 - float(rounding(arr))
            if off.max() <= atol and rel.max() <= rtol * slack:
                return dt
    return None


def verdict(mon, arr, out, rec, atol, rtol, nullable):
    """out: the recast numbers, arr: a 1-d array of what they were"""
    mon.check(len(out) == len(arr), "length", got=len(out), want=len(arr))
    dtype = out.dtype
    kind = dtype.kind
    extension = isinstance(dtype, pd.api.extensions.ExtensionDtype)
    mon.check(width(dtype) <= arr.dtype.itemsize, "wider result", got=dtype,
              had=arr.dtype)
    if extension:
        mon.check(nullable, "a nullable type nobody asked for", got=dtype)
        mon.ev("nullable_results")
    if arr.dtype.kind in "iu":
        mon.check(kind in "iu" and not extension, "integer type", got=dtype)
        lo, hi = (int(arr.min()), int(arr.max())) if len(arr) else (0, 0)
        need = next(w for w in (1, 2, 4, 8) for k in "iu"
                    if np.iinfo(f"{k}{w}").min <= lo
                    and hi <= np.iinfo(f"{k}{w}").max)
        mon.check(width(dtype) == need, "not the narrowest integer type",
                  got=dtype, range=(lo, hi))
        mon.check([int(x) for x in out] == [int(x) for x in arr],
                  "integers changed", got=out, want=arr)
        mon.ev("integer_arrays")
        if rec is not None:
            mon.check(rec["aerr"] == 0 and rec["rerr"] == 0,
                      "errors of integers")
        return
    if arr.dtype.kind == "b":
        mon.check(kind in "biu", "type of bools", got=dtype)
        mon.check([bool(x) for x in out] == [bool(x) for x in arr] and
                  all(int(x) in (0, 1) for x in out), "bools changed",
                  got=out, want=arr)
        mon.ev("bool_arrays")
        return
    worst_a = worst_r = Fraction(0)
    for was, now in zip(arr, list(out)):
        if np.isfinite(was):
            mon.check(now is not pd.NA and np.isfinite(now),
                      "a number became missing or infinite", was=was, now=now,
                      to=dtype, arr=arr)
            a, b = exact(was), exact(now)
            off = abs(a - b)
            rel = off / abs(a) if a else Fraction(0)
            mon.check(a or not b, "zero changed", now=now)
            worst_a, worst_r = max(worst_a, off), max(worst_r, rel)
        elif extension:
            mon.check(now is pd.NA, "non-finite value in nullable result",
                      was=was, now=now)
            mon.ev("missing_values")
        else:
            mon.check(kind == "f" and (np.isnan(now) if np.isnan(was)
                                       else now == was),
                      "non-finite value changed", was=was, now=now, to=dtype)
            mon.ev("nonfinite_values")
    info = dict(arr=arr, to=dtype, atol=atol, rtol=rtol)
    if math.isfinite(atol):
        mon.check(worst_a <= exact(atol),
                  "absolute tolerance exceeded", worst=float(worst_a), **info)
    if math.isfinite(rtol):
        mon.check(worst_r <= exact(rtol) * (1 + rounding(arr)),
                  "relative tolerance exceeded", worst=float(worst_r), **info)
    if rec is not None:
        mon.check(worst_a <= exact(float(rec["aerr"])) * (1 + SLACK) +
                  Fraction(1, 10**300),
                  "reported absolute error too small", worst=float(worst_a),
                  reported=rec["aerr"], **info)
        mon.check(worst_r <= exact(float(rec["rerr"])) * (1 + SLACK) +
                  Fraction(1, 10**300),
                  "reported relative error too small", worst=float(worst_r),
                  reported=rec["rerr"], **info)
        for worst, key in ((worst_a, "aerr"), (worst_r, "rerr")):
            mon.check(exact(float(rec[key])) <= worst * (1 + SLACK) +
                      Fraction(1, 10**300), "reported error exceeds all errors",
                      worst=float(worst), reported=rec[key], **info)
    if dtype == arr.dtype and width(dtype) > 1:
        better = narrower(arr, atol, rtol, nullable)
        mon.check(better is None, "not narrowed, though a narrower type is "
                  "within the tolerances", narrower=better, **info)
        mon.ev("kept_float_arrays")
    if kind in "iu":
        finite = [exact(x) for x in arr if np.isfinite(x)]
        lo, hi = min(finite), max(finite)
        need = next(w for w in (1, 2, 4, 8) for k in "iu"
                    if np.iinfo(f"{k}{w}").min <= lo
                    and hi <= np.iinfo(f"{k}{w}").max)
        mon.check(width(dtype) == need, "not the narrowest integer type",
                  got=dtype, range=(float(lo), float(hi)))
        mon.ev("integers_from_floats")
    mon.ev("float_arrays")
    if width(dtype) < arr.dtype.itemsize:
        mon.ev("narrowed_float_arrays")
    if worst_a:
        mon.ev("inexact_results")


TOLERANCES = [0.0, 1e-12, 1e-9, 1e-7, 1e-6, 1e-5, 5e-5, 1e-4, 1e-3, 0.01, 0.1,
              0.5, 1.0, 100.0, 1e6, math.inf]


def options(rng):
    opts = {}
    if rng.random() < 0.7:
        opts["atol"] = rng.choice(TOLERANCES)
    if rng.random() < 0.7:
        opts["rtol"] = rng.choice(TOLERANCES)
    if rng.random() < 0.6:
        opts["library"] = rng.choice(["pandas", "numpy"])
    if opts.get("library") == "pandas" and rng.random() < 0.6:
        opts["use_nillable_int"] = rng.random() < 0.8
    return opts


def w_downcast(mon, rng):
    n = gen.size(rng, [0, 1, 1, 2, 3, 5, 8, 30])
    arr = frames.numeric_array(rng, n, "iuffffb")
    name = None
    given, style = arr, rng.randrange(6)
    if style == 0 and arr.dtype.itemsize <= 8:
        name = rng.choice(["a", None, 7, ("x", 1)])
        arr = arr.astype(arr.dtype.newbyteorder("="))
        given = pd.Series(arr, index=frames.index(rng, n), name=name)
    elif style == 1:
        given = [x.item() for x in arr] if arr.dtype.itemsize <= 8 else arr
        arr = np.asarray(given)
        name = None
    elif style == 2 and n:
        given = arr = arr[::-1]
    elif style == 3 and n:
        given = arr = np.repeat(arr, 2)[::2]
        arr.setflags(write=False)
    before = arr.tobytes(), arr.dtype, arr.shape
    kept = frames.picture(given) if isinstance(given, pd.Series) else None
    opts = options(rng)
    rec = pivot.downcast(given, **opts)
    mon.check((arr.tobytes(), arr.dtype, arr.shape) == before,
              "input modified")
    mon.check(kept is None or frames.picture(given) == kept,
              "input series modified")
    out = rec["recast"]
    if opts.get("library") == "pandas":
        mon.check(isinstance(out, pd.Series), "a series", got=type(out))
        mon.eq(out.name, name if isinstance(given, pd.Series) else None,
               "name of the series")
    else:
        mon.check(type(out) is np.ndarray, "an array", got=type(out))
    verdict(mon, arr, out, rec, opts.get("atol", 5e-5),
            opts.get("rtol", 1e-6), opts.get("use_nillable_int", False))
    mon.sig(str(arr.dtype), str(out.dtype), n, opts.get("use_nillable_int"),
            bool(rec["aerr"]))
    mon.sample(f"{arr[:5]!r} {opts} -> {out.dtype}")


def w_shapes(mon, rng):
    """arrays of several dimensions, as numpy arrays"""
    shape = rng.choice([(), (2, 3), (3, 1, 2), (0, 4), (4, 4)])
    n = int(np.prod(shape, dtype=int))
    arr = frames.numeric_array(rng, n, "iufff").reshape(shape)
    if rng.random() < 0.3 and arr.ndim > 1:
        arr = np.asfortranarray(arr)
    opts = options(rng) | {"library": "numpy"}
    opts.pop("use_nillable_int", None)
    before = arr.tobytes()
    rec = pivot.downcast(arr, **opts)
    mon.check(arr.tobytes() == before, "input modified")
    mon.eq(rec["recast"].shape, arr.shape, "shape")
    verdict(mon, arr.ravel(), rec["recast"].ravel(), rec,
            opts.get("atol", 5e-5), opts.get("rtol", 1e-6), False)
    mon.ev("shaped_arrays")
    mon.sig(shape, str(arr.dtype), str(rec["recast"].dtype))


def w_large(mon, rng):
    """large arrays in which a few elements decide; judged by sight of all"""
    n = rng.choice([3000, 9999, 10001, 17000, 33000, 66000, 140000])
    kind = rng.randrange(3)
    draw = np.random.default_rng(rng.getrandbits(64))
    arr = draw.integers(0, 100, n).astype(
        rng.choice(["i8", "i4", "u4"]) if kind == 0 else
        rng.choice(["f8", "f4"]))
    for _ in range(rng.choice([0, 1, 1, 2])):
        i = rng.choice([n - 1, n // 2, rng.randrange(n), rng.randrange(n)])
        arr[i] = rng.choice([300, 70000, 2**31 - 1, 100, 128] if kind == 0
                            else [0.5, 1e-3, -1, 300, 70000.25, 1e10,
                                  100.0001])
    if kind == 2 and rng.random() < 0.5:
        arr[rng.randrange(n)] = rng.choice([math.nan, math.inf])
    before = arr.tobytes()
    opts = {"atol": rng.choice([1e-9, 5e-5, 0.01]),
            "rtol": rng.choice([1e-9, 1e-6, 0.01])}
    rec = pivot.downcast(arr, **opts)
    out = rec["recast"]
    mon.check(arr.tobytes() == before, "input modified")
    mon.check(out.shape == arr.shape and
              out.dtype.itemsize <= arr.dtype.itemsize, "shape or width",
              got=out.dtype)
    wide, now = arr.astype("f16"), out.astype("f16")
    there = np.isfinite(wide)
    mon.check(np.array_equal(wide[~there], now[~there], equal_nan=True),
              "non-finite values changed", to=out.dtype)
    off = np.abs(wide[there] - now[there])
    rel = off / np.where(wide[there] == 0, 1, np.abs(wide[there]))
    allowed = (0, 0) if kind == 0 else (opts["atol"], opts["rtol"])
    for what, err, most in zip(("absolute", "relative"), (off, rel), allowed):
        mon.check(err.max() <= most * (1 + float(SLACK)),
                  f"{what} tolerance exceeded", worst=float(err.max()),
                  at=int(err.argmax()), n=n, to=out.dtype, opts=opts)
    if kind == 0:
        lo, hi = int(arr.min()), int(arr.max())
        mon.check(out.dtype.itemsize == next(
            w for w in (1, 2, 4, 8) for k in "iu"
            if np.iinfo(f"{k}{w}").min <= lo and hi <= np.iinfo(f"{k}{w}").max
        ), "not the narrowest integer type", got=out.dtype, range=(lo, hi))
    mon.ev("large_arrays")
    mon.sig("large", n, str(arr.dtype), str(out.dtype))


def w_edges(mon, rng):
    """errors close to what the tolerances (or their defaults) allow"""
    frame = rng.random() < 0.5
    opts, limits = {}, {"atol": 1e-5 if frame else 5e-5,
                        "rtol": 1e-7 if frame else 1e-6}
    for name in limits:
        if rng.random() < 0.5:
            limits[name] = opts[name] = rng.choice(
                [1e-9, 1e-6, 1e-5, 1e-4, 1e-3, 0.01, 0.1])
    limit = rng.choice(list(limits))
    factor = rng.choice([0.3, 0.9, 0.99, 1.02, 1.1, 1.3, 1.7, 1.9, 2.5, 9])
    size = 10 ** rng.uniform(0, 8)
    values = []
    for _ in range(rng.choice([1, 2, 5, 40])):
        base = rng.choice([-1, 1, 1]) * max(1, int(size * rng.random()))
        off = factor * limits[limit] * (abs(base) if limit == "rtol" else 1)
        values.append(base + rng.choice([-1, 1]) * off
                      if not values or rng.random() < 0.3 else base)
    rng.shuffle(values)
    arr = np.array(values, rng.choice(["f8", "f8", "f8", "f4"]))
    if rng.random() < 0.3:  # what a narrower type is off by, or hardly less
        with np.errstate(all="ignore"):
            near = arr.astype(rng.choice(
                ["f2", "f4", "i4"] if arr.itemsize > 4 else ["f2", "i2"]))
        off = float(np.abs(arr.astype("f8") - near.astype("f8")).max())
        if 0 < off < 1e300:
            limits["atol"] = opts["atol"] = rng.choice(
                [off, math.nextafter(off, 0), off * (1 - 2**-27),
                 math.nextafter(off, 1e300), off * (1 + 2**-27)])
            limits["rtol"] = opts["rtol"] = rng.choice([1.0, 1e-2, 1e-3])
            mon.ev("errors_at_tolerance")
    if frame:
        df = pd.DataFrame({"x": arr, "y": arr[::-1]})
        out = pivot.downcast_df(df, **opts)
        for name in df:
            verdict(mon, df[name].to_numpy(), out[name], None,
                    limits["atol"], limits["rtol"], False)
    else:
        rec = pivot.downcast(arr, **opts)
        verdict(mon, arr, rec["recast"], rec, limits["atol"], limits["rtol"],
                False)
    mon.ev("errors_near_tolerance")
    mon.sig("edges", limit, factor, tuple(opts.items()), frame)


def w_refused(mon, rng):
    """what it does not handle is refused, not mangled"""
    arr = rng.choice([
        lambda: np.array([1 + 2j, 3]), lambda: np.array(["1", "2"], object),
        lambda: np.array(["2020-01-01"], "M8[s]"),
        lambda: np.array([1 + 0j], "c8"),
        lambda: np.array([2**70, 1], object),
    ])()
    mon.raises(TypeError, lambda: pivot.downcast(arr, **options(rng)),
               "unsupported type", arr=arr)
    mon.raises(TypeError, lambda: pivot.downcast(
        np.array([1.0, math.nan]), library="numpy", use_nillable_int=True),
        "nullable numpy array")
    mon.ev("refusals")


def w_bounds(mon, rng):
    """check_in_dtype_bounds, in exact arithmetic"""
    dt = np.dtype(rng.choice(["i1", "u1", "i2", "u2", "i4", "u4", "i8", "u8",
                              "f2", "f4", "f8", ">i4", ">f4"]))
    info = np.iinfo(dt) if dt.kind in "iu" else np.finfo(dt)
    low, high = exact(info.min), exact(info.max)

    def draw():
        edge = rng.choice([low, high, Fraction(0), Fraction(2**63)])
        x = rng.choice([int, float])(edge + rng.choice([0, 0, 1, -1, 2, 100]))
        if isinstance(x, float):
            x = rng.choice([x, np.nextafter(x, math.inf).item(),
                            np.nextafter(x, -math.inf).item()])
        types = [np.int64, np.uint64, np.int32, np.float64] \
            if rng.random() < 0.6 else []
        for t in rng.sample(types, len(types)):
            try:
                with np.errstate(all="ignore"):
                    if t(x).item() == x and not math.isinf(t(x)):
                        return t(x)
            except (OverflowError, ValueError):
                pass
        return x
    a, b = draw(), draw()
    if dt.kind == "f" and any(isinstance(x, int) and abs(x) > 2**53
                              for x in (a, b)):
        return
    if dt.kind == "f" and any(math.isfinite(x) and high < abs(exact(x)) <
                              high * Fraction(11, 10) for x in (a, b)):
        # may round into the bounds
        return
    got = pivot.check_in_dtype_bounds(a, b, dt)
    want = low <= exact(a) and exact(b) <= high if all(
        math.isfinite(x) for x in (a, b)) else a >= float(low) and b <= float(
            high)
    mon.check(got is bool(want), "whether a range fits a type", lo=a, hi=b,
              dtype=dt, got=got)
    mon.ev("ranges_fit" if want else "ranges_too_wide")
    mon.sig("bounds", str(dt), want, type(a).__name__, type(b).__name__)


def w_frame(mon, rng):
    df = frames.frame(rng, unique=rng.random() < 0.7,
                      numeric=rng.choice([0, 0.5, 0.8, 1]))
    before = frames.picture(df)
    opts = {}
    for name in ("atol", "rtol"):
        if rng.random() < 0.6:
            opts[name] = rng.choice(TOLERANCES)
    for name in ("use_nillable_int", "copy_all", "reassemble"):
        if rng.random() < 0.5:
            opts[name] = rng.random() < 0.6
    out = pivot.downcast_df(df, **opts)
    mon.check(frames.picture(df) == before, "input frame modified")
    if opts.get("reassemble", True):
        mon.check(type(out) is pd.DataFrame, "a frame")
        mon.eq(out.shape, df.shape, "shape of the frame")
        mon.eq(frames.labels(out.index), frames.labels(df.index), "index",
               opts=opts)
        mon.eq(frames.labels(out.columns), frames.labels(df.columns),
               "columns")
        cols = [out.iloc[:, i] for i in range(out.shape[1])]
    else:
        mon.check(type(out) is list and len(out) == df.shape[1],
                  "list of columns")
        cols = out
    for i, col in enumerate(cols):
        was = df.iloc[:, i]
        mon.eq(frames.labels(col.index), frames.labels(df.index),
               "index of a column")
        mon.eq(frames.cell(col.name), frames.cell(was.name),
               "name of a column")
        if was.dtype.kind in "iufb" and isinstance(was.dtype, np.dtype):
            verdict(mon, was.to_numpy(), col, None, opts.get("atol", 1e-5),
                    opts.get("rtol", 1e-7),
                    opts.get("use_nillable_int", False))
            mon.ev("numeric_columns")
        else:
            mon.eq(col.dtype, was.dtype, "dtype of another column")
            mon.eq(frames.cells(col), frames.cells(was), "another column")
            mon.ev("other_columns")
    # writing to the result leaves the input alone
    if opts.get("copy_all", True) and len(df) and not opts.get(
            "reassemble", True):
        col = rng.choice(cols)
        if len(col) and col.dtype.kind in "iuf" and isinstance(
                col.dtype, np.dtype):
            col.iloc[0] = 1
            mon.check(frames.picture(df) == before,
                      "writing to the result changed the input")
    mon.sig("frame", df.shape, tuple(map(str, df.dtypes)),
            tuple(str(c.dtype) for c in cols))


CHECK = Check(
    "C20",
    [
        Workload(w_downcast, 24000, 400000,
                 {"float_arrays": 3000, "kept_float_arrays": 500,
                  "narrowed_float_arrays": 500,
                  "integers_from_floats": 300,
                  "inexact_results": 300, "integer_arrays": 800,
                  "bool_arrays": 300, "nonfinite_values": 500,
                  "nullable_results": 50}),
        Workload(w_shapes, 1000, 30000, {"shaped_arrays": 500}),
        Workload(w_edges, 4000, 90000, {"errors_near_tolerance": 2000,
                                        "errors_at_tolerance": 400,
                                        "inexact_results": 300}),
        Workload(w_bounds, 3000, 90000, {"ranges_fit": 500,
                                         "ranges_too_wide": 500}),
        Workload(w_large, 160, 4000, {"large_arrays": 100}),
        Workload(w_refused, 100, 1000, {"refusals": 50}),
        Workload(w_frame, 4000, 40000,
                 {"numeric_columns": 800, "other_columns": 500}),
    ],
    rule="a case is one array or frame downcast with random options and every "
         "element compared, in exact rational arithmetic, with what it was; "
         "distinct = distinct (input types, output types, sizes, options)",
    assumptions=["relative errors are compared with the tolerance up to the "
                 "rounding of the input's type (absolute ones exactly), and "
                 "with reported errors up to 0.4%, the rounding of the "
                 "narrowest float",
                 "numeric columns of frames are real and of a numpy dtype"],
)
