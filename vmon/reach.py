"""
which kinds of input the functions under test were called with: one line per
(check, function, parameter, feature) first seen, appended to $VMON_REACH.
only for judging the workloads (tools/reach.py); no check uses it.
"""
import math
import os
import sys
from collections import Counter

ROOT = "/repo/dustgoggles/"
PATH = os.environ.get("VMON_REACH")
seen, calls = set(), Counter()


def text_features(v):
    n = len(v)
    yield "text:" + ("0" if n == 0 else "1" if n == 1 else "<=16" if n <= 16
                     else "<=64" if n <= 64 else "<=255" if n <= 255
                     else "<=4096" if n <= 4096 else ">4096")
    if type(v) is not str:
        yield "text:subclass"
    if not v.isascii():
        yield "text:nonascii"
        if any(ord(c) > 0xffff for c in v[:5000]):
            yield "text:astral"
        if any(0xd800 <= ord(c) < 0xe000 for c in v[:5000]):
            yield "text:surrogate"
    for name, test in (
        ("newline", "\n" in v), ("cr", "\r" in v), ("tab", "\t" in v),
        ("null", "\0" in v), ("quote", "'" in v or '"' in v),
        ("backslash", "\\" in v), ("digits", v.isdigit()),
        ("edgespace", v != v.strip()), ("inner space", " " in v.strip()),
        ("upper", v.isupper()), ("mixed case", not v.isupper() and v != v.lower()),
        ("underscore", "_" in v), ("dunder", v.startswith("__")),
        ("dot", "." in v), ("slash", "/" in v), ("percent", "%" in v),
        ("braces", "{" in v), ("keyword", v in ("class", "def", "None", "True", "self", "args", "kwargs", "func", "key", "value", "name")),
    ):
        if test:
            yield f"text:{name}"


def number_features(v):
    if isinstance(v, bool):
        yield f"bool:{v}"
        return
    if isinstance(v, int):
        a = abs(v)
        yield "int:" + ("0" if v == 0 else "1" if v == 1 else "small" if a < 256
                        else "<2^15" if a < 2 ** 15 else "<2^31"
                        if a < 2 ** 31 else "<2^53" if a < 2 ** 53
                        else "<2^63" if a < 2 ** 63 else "<2^200"
                        if a < 2 ** 200 else "huge")
        if v < 0:
            yield "int:negative"
        if type(v) is not int:
            yield "int:subclass"
        return
    if isinstance(v, float):
        if math.isnan(v):
            yield "float:nan"
        elif math.isinf(v):
            yield f"float:{v}"
        elif v == 0:
            yield f"float:{v}"
        else:
            yield "float:" + ("integral" if v == int(v) else "fraction")
            if abs(v) < 1e-300:
                yield "float:tiny"
            if abs(v) > 1e300:
                yield "float:vast"
            if v < 0:
                yield "float:negative"
        if type(v) is not float:
            yield "float:subclass"
        return


def size_name(n):
    for lim in (0, 1, 2, 5, 16, 64, 255, 1000, 10000):
        if n <= lim:
            return f"<={lim}"
    return ">10000"


def array_features(a):
    import numpy as np
    yield f"array:kind {a.dtype.kind}{a.dtype.itemsize if a.dtype.kind in 'iufcb' else ''}"
    yield f"array:ndim {a.ndim}"
    yield f"array:size {size_name(a.size)}"
    if not a.dtype.isnative:
        yield "array:nonnative"
    if not a.flags.writeable:
        yield "array:readonly"
    if not a.flags.c_contiguous:
        yield "array:noncontiguous"
    if any(s < 0 for s in a.strides):
        yield "array:negative strides"
    if a.size > 1 and any(s == 0 for s in a.strides):
        yield "array:broadcast"
    if type(a) is not np.ndarray:
        yield f"array:type {type(a).__name__}"
    if a.dtype.kind == "f" and a.size:
        with np.errstate(all="ignore"):
            if np.isnan(a).any():
                yield "array:some nan" if not np.isnan(a).all() else "array:all nan"
            if np.isinf(a).any():
                yield "array:inf"
            if (np.signbit(a) & (a == 0)).any():
                yield "array:-0.0"


def index_features(ix):
    yield f"index:{type(ix).__name__} {ix.dtype}"[:60]
    if not ix.is_unique:
        yield "index:duplicates"
    if ix.nlevels == 1 and not ix.is_monotonic_increasing:
        yield "index:unsorted"
    if ix.name is not None:
        yield "index:named"
    if ix.hasnans if ix.nlevels == 1 else False:
        yield "index:missing"


def frame_features(v):
    import pandas as pd
    if isinstance(v, pd.Series):
        yield f"series:{str(v.dtype)[:30]}"
        yield f"series:rows {size_name(len(v))}"
        yield f"series:name {type(v.name).__name__}"
        if v.isna().any():
            yield "series:missing" if not v.isna().all() else "series:all missing"
        for f in index_features(v.index):
            yield f"series {f}"
        if type(v) is not pd.Series:
            yield "series:subclass"
        return
    yield f"frame:rows {size_name(len(v))}"
    yield f"frame:cols {size_name(v.shape[1])}"
    if type(v) is not pd.DataFrame:
        yield "frame:subclass"
    if v.attrs:
        yield "frame:attrs"
    for f in index_features(v.index):
        yield f"frame rows {f}"
    for f in index_features(v.columns):
        yield f"frame columns {f}"
    for c in set(map(str, v.dtypes)):
        yield f"frame:dtype {c[:30]}"
    for c in v.columns[:50]:
        if isinstance(c, str):
            for f in text_features(c):
                yield f"frame colname {f}"


def features(v, depth=0, budget=None):
    budget = [400] if budget is None else budget
    budget[0] -= 1
    if budget[0] < 0:
        return
    at = "" if depth == 0 else "in:"
    if v is None:
        yield f"{at}None"
    elif isinstance(v, str):
        for f in text_features(v):
            yield at + f
    elif isinstance(v, (int, float)):
        for f in number_features(v):
            yield at + f
    elif isinstance(v, (bytes, bytearray, memoryview)):
        yield f"{at}{type(v).__name__} {size_name(len(v))}"
    elif isinstance(v, dict) or type(v).__name__ in ("mappingproxy", "UserDict", "ChainMap"):
        yield f"{at}dict {type(v).__name__} {size_name(len(v))}"
        yield f"depth {depth}" if depth < 8 else "depth >=8"
        kinds = {type(k).__name__ for k in list(v)[:100]}
        for k in kinds:
            yield f"{at}keys of {k}"
        if len(kinds) > 1:
            yield f"{at}keys of mixed types"
        for k in list(v)[:40]:
            for f in features(k, depth + 1, budget):
                yield f"key {f}"
        for x in list(v.values())[:40]:
            yield from features(x, depth + 1, budget)
        vals = list(v.values())[:40]
        if len({id(x) for x in vals if isinstance(x, (dict, list))}) < sum(isinstance(x, (dict, list)) for x in vals):
            yield f"{at}shared values"
    elif isinstance(v, (list, tuple, set, frozenset)):
        yield f"{at}{type(v).__name__} {size_name(len(v))}"
        yield f"depth {depth}" if depth < 8 else "depth >=8"
        for x in list(v)[:40]:
            yield from features(x, depth + 1, budget)
    elif isinstance(v, BaseException):
        yield f"{at}exception {type(v).__name__}"
        yield f"{at}exception args {len(v.args)}"
        n, tb = 0, v.__traceback__
        while tb is not None:
            n, tb = n + 1, tb.tb_next
        yield f"{at}exception frames {size_name(n)}"
    elif type(v).__module__.split(".")[0] == "numpy":
        import numpy as np
        if isinstance(v, np.ndarray):
            for f in array_features(v):
                yield at + f
        else:
            yield f"{at}numpy {type(v).__name__}"
    elif type(v).__module__.split(".")[0] == "pandas":
        import pandas as pd
        if isinstance(v, (pd.Series, pd.DataFrame)):
            for f in frame_features(v):
                yield at + f
        else:
            yield f"{at}pandas {type(v).__name__}"
    elif callable(v):
        yield f"{at}callable {type(v).__name__}"
    else:
        yield f"{at}{type(v).__name__}"


def _start(check, out):
    def note(code, _offset):
        if not code.co_filename.startswith(ROOT):
            return sys.monitoring.DISABLE
        where = f"{code.co_filename[len(ROOT):]}:{code.co_qualname}"
        calls[where] += 1
        n = calls[where]
        if n > 3000 and n % 50:
            return
        frame = sys._getframe(1)
        local = frame.f_locals
        flags = code.co_flags
        count = code.co_argcount + code.co_kwonlyargcount + bool(flags & 4) + bool(flags & 8)
        lines = []
        try:
            things = [(k, local[k]) for k in code.co_varnames[:count] if k in local]
            more = []
            for k, v in things:
                if k == "self" and hasattr(v, "__dict__") and "frame" not in k:
                    more += [(f"self.{a}", b) for a, b in list(vars(v).items())]
            for k, v in things + more:
                if k == "self":
                    continue
                for f in features(v):
                    item = (where, k, f)
                    if item not in seen:
                        seen.add(item)
                        lines.append(f"{check}\t{where}\t{k}\t{f}\n")
            for lim in (1, 10, 100, 1000, 10000):
                if n == lim:
                    lines.append(f"{check}\t{where}\t()\tcalls>={lim}\n")
        except Exception as ex:
            item = (where, "error", repr(ex)[:80])
            if item not in seen:
                seen.add(item)
                lines.append("\t".join((check,) + item) + "\n")
        if lines:
            fd = os.open(out, os.O_WRONLY | os.O_APPEND)
            os.write(fd, "".join(lines).encode("utf-8", "replace"))
            os.close(fd)
    return note


def start(check):
    if not PATH:
        return
    mon = sys.monitoring
    mon.use_tool_id(3, "vmon-reach")
    mon.register_callback(3, mon.events.PY_START, _start(check, PATH))
    mon.set_events(3, mon.events.PY_START)
