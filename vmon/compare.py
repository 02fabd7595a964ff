"""typed deep equality: equal values of equal types at every level"""
import math
import struct
from collections import deque


def _np():
    import sys
    return sys.modules.get("numpy")


def same(a, b, _seen=None):
    if a is b:
        return True
    if type(a) is not type(b):
        return False
    seen = _seen if _seen is not None else set()
    if isinstance(a, (list, tuple, dict, set, frozenset)) or hasattr(
        a, "__dict__"
    ):
        key = (id(a), id(b))
        if key in seen:
            return True
        seen.add(key)
    if isinstance(a, float):
        if math.isnan(a) or math.isnan(b):
            return math.isnan(a) and math.isnan(b)
        return struct.pack("d", a) == struct.pack("d", b)
    if isinstance(a, complex):
        return same(a.real, b.real) and same(a.imag, b.imag)
    if isinstance(a, (list, tuple)):
        if len(a) != len(b):
            return False
        return all(same(x, y, seen) for x, y in zip(a, b))
    if isinstance(a, dict):
        if len(a) != len(b):
            return False
        return all(
            same(k1, k2, seen) and same(v1, v2, seen)
            for (k1, v1), (k2, v2) in zip(a.items(), b.items())
        )
    if isinstance(a, (set, frozenset)):
        return a == b and sorted(map(_tkey, a)) == sorted(map(_tkey, b))
    np = _np()
    if np is not None and isinstance(a, np.ndarray):
        return (
            a.dtype == b.dtype and a.dtype.byteorder == b.dtype.byteorder
            and a.shape == b.shape and a.tobytes() == b.tobytes()
        )
    if np is not None and isinstance(a, np.generic):
        return a.dtype == b.dtype and a.tobytes() == b.tobytes()
    if isinstance(a, deque):
        return a.maxlen == b.maxlen and same(list(a), list(b), seen)
    state = getattr(type(a), "__samestate__", None)
    if state is not None:
        return same(state(a), state(b), seen)
    if isinstance(a, BaseException):
        return same(a.args, b.args, seen)
    try:
        if bool(a == b):
            return True
    except Exception:
        pass
    if type(a).__eq__ is object.__eq__ and hasattr(a, "__dict__"):
        return same(a.__dict__, b.__dict__, seen)
    return False


def _tkey(x):
    return type(x).__name__, repr(x)
