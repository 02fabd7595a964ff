"""C01: codecs round-trip"""
import copy
import datetime as dt
from collections import OrderedDict
from decimal import Decimal
from fractions import Fraction
from pathlib import Path

import numpy as np

from dustgoggles.codex import codecs
from vmon import gen
from vmon.compare import same
from vmon.core import Check, Workload

FACTORIES = {
    "json": (codecs.json_codec_factory, gen.json_value),
    "ast": (codecs.ast_codec_factory, gen.literal),
    "pickle": (codecs.pickle_codec_factory, gen.picklable),
}


def _kinds(v, out, depth=0):
    out.add((type(v).__name__, min(depth, 3)))
    if isinstance(v, dict):
        for k, x in v.items():
            _kinds(k, out, depth + 1)
            _kinds(x, out, depth + 1)
    elif isinstance(v, (list, tuple, set, frozenset)):
        for x in v:
            _kinds(x, out, depth + 1)


def _roundtrip(mon, name, encode, decode, value):
    before = copy.deepcopy(value)
    blob = encode(value)
    mon.check(type(blob) is bytes, f"{name}: encoding is not bytes",
              got=type(blob))
    mon.eq(value, before, f"{name}: encoding modified the value")
    mon.check(len(blob) > 0, f"{name}: empty encoding", value=value)
    mon.eq(decode(blob), value, f"{name}: decoding gives another value",
           blob=blob[:500])
    mon.ev("round_trips")
    return blob


def w_values(mon, rng):
    name = rng.choice(list(FACTORIES))
    factory, make = FACTORIES[name]
    encode, decode = factory()
    for _ in range(rng.randint(1, 6)):
        value = make(rng)
        blob = _roundtrip(mon, name, encode, decode, value)
        kinds = set()
        _kinds(value, kinds)
        mon.sig(name, sorted(kinds))
        mon.ev(f"{name}_bytes", len(blob))
        if gen.alter(rng, value):
            # the same object with another content
            _roundtrip(mon, name, encode, decode, value)
            mon.ev("altered_values")
        if rng.random() < 0.3:
            one, two = decode(blob), decode(blob)
            if gen.alter(rng, one):
                mon.eq(decode(blob), two, f"{name}: decoded values share parts")
                mon.ev("altered_results")
        mon.sample(f"{name}: {value!r}")


def w_interleaved(mon, rng):
    """several codec pairs and values at once, in any order of calls"""
    pairs, pending = [], []
    for _ in range(rng.randint(2, 5)):
        name = rng.choice(list(FACTORIES))
        factory, make = FACTORIES[name]
        pairs.append((name, make, *factory()))
    for _ in range(rng.randint(5, 25)):
        if pending and rng.random() < 0.5:
            i = rng.randrange(len(pending))
            name, blob, value = pending[i]
            # any pair made by the same factory decodes it, repeatedly
            decode = rng.choice([p[3] for p in pairs if p[0] == name])
            mon.eq(decode(blob), value, f"{name}: decoding depends on history")
            if rng.random() < 0.5:
                pending.pop(i)
        else:
            name, make, encode, decode = rng.choice(pairs)
            value = make(rng, 2)
            pending.append((name, encode(value), value))
            again = rng.choice([p[2] for p in pairs if p[0] == name])(value)
            mon.eq(decode(again), value, f"{name}: encoding depends on history")
    mon.ev("histories")


def w_big(mon, rng):
    """large and deep values"""
    import sys
    for name, (factory, _) in FACTORIES.items():
        encode, decode = factory()
        deep = 0
        for _ in range(rng.choice([10, 60, 85])):
            deep = [deep] if rng.random() < 0.5 else {"k": deep}
        digits = rng.choice([1000, 4000])
        wide = [gen.integer(rng) for _ in range(rng.choice([255, 256, 3000]))]
        long_text = "aé\n'" * rng.choice([64, 16384, 300000])
        for value in (deep, wide, long_text, 10 ** digits + 7,
                      -(10 ** digits), {str(i): i for i in range(2000)},
                      [0.1 * i for i in range(1000)]):
            _roundtrip(mon, name, encode, decode, value)
        mon.sig(name, "big", digits, len(wide), len(long_text))


def w_surrogates(mon, rng):
    """text that is no Unicode text, as file names can be"""
    for name, (factory, _) in FACTORIES.items():
        encode, decode = factory()
        # never two in a row: JSON reads a pair of them as one character
        text = "".join(
            rng.choice("aé日\U0001f600\x00 \"'\\") + chr(rng.randint(
                0xd800, 0xdfff)) for _ in range(rng.randint(1, 5)))
        text += rng.choice(["", "z"])
        for value in (text, [text, 1], {text: {"k": text}}):
            _roundtrip(mon, name, encode, decode, value)
        mon.ev("surrogates")
        mon.sig(name, "surrogates", len(text))


class Cell:
    pass


def w_shared(mon, rng):
    """pickle keeps shared and recursive references"""
    encode, decode = codecs.pickle_codec_factory()
    leaf = gen.picklable(rng, 1)
    shared = [leaf, rng.random()]
    value = {"a": shared, "b": (shared, [shared])}
    got = decode(encode(value))
    mon.check(same(got, value) and got["a"] is got["b"][0]
              and got["b"][1][0] is got["a"],
              "pickle codec lost a shared reference", got=got)
    loop = [1]
    loop.append({"self": loop})
    got = decode(encode(loop))
    mon.check(got[0] == 1 and got[1]["self"] is got and len(got) == 2,
              "pickle codec broke a recursive list", got=got)
    cell = Cell()
    cell.me, cell.other = cell, Cell()
    cell.other.back = cell
    got = decode(encode(cell))
    mon.check(got.me is got and got.other.back is got,
              "pickle codec broke a recursive object")
    import functools
    p = functools.partial(gen.module_function, 3, y=leaf)
    got = decode(encode(p))
    mon.check(got.func is p.func and same(got.args, p.args)
              and same(got.keywords, p.keywords), "partial not restored")
    mon.ev("reference_graphs", 3)
    mon.sig("shared", type(leaf).__name__)


OUTSIDE = {
    "json": lambda rng: rng.choice([
        lambda: object(), lambda: {1, 2}, lambda: b"x", lambda: 1 + 2j,
        lambda: lambda: 0, lambda: [1, {2}], lambda: {"a": b"x"},
        lambda: {(1, 2): 3}, lambda: gen.Plain(a=1), lambda: range(3),
        lambda: Decimal("1.5"), lambda: dt.date(2020, 1, 2), lambda: Path("x"),
        lambda: [dt.timedelta(1)], lambda: np.int64(3), lambda: np.arange(2),
        lambda: {"a": np.float32(1)}, lambda: Ellipsis, lambda: int,
        lambda: Fraction(1, 2), lambda: bytearray(b"x"), lambda: iter([1]),
        lambda: frozenset([1]), lambda: {"a": ValueError("x")},
    ])(),
    "ast": lambda rng: rng.choice([
        lambda: object(), lambda: lambda: 0, lambda: gen.Plain(a=1),
        lambda: [1, object()], lambda: {"a": len}, lambda: dict,
        lambda: float("inf"), lambda: [float("nan")], lambda: (1, range(3)),
        lambda: bytearray(b"x"), lambda: frozenset([1]),
        lambda: Decimal("1.5"), lambda: dt.date(2020, 1, 2), lambda: Path("x"),
        lambda: [np.float64(2)], lambda: np.arange(2), lambda: {1: int},
        lambda: OrderedDict(a=1), lambda: Fraction(1, 2), lambda: iter([1]),
        lambda: ValueError("x"), lambda: {"a": gen.Point(1, 2)},
    ])(),
    "pickle": lambda rng: rng.choice([
        lambda: lambda: 0, lambda: [lambda: 0], lambda: (i for i in range(3)),
        lambda: {"a": (lambda: 0)}, lambda: open("/dev/null"),
    ])(),
}


def w_outside(mon, rng):
    """values outside the domain are refused, never silently replaced"""
    for name, (factory, make) in FACTORIES.items():
        encode, decode = factory()
        bad = OUTSIDE[name](rng)
        try:
            got = decode(encode(bad))
        except Exception:
            mon.ev("refusals")
        else:
            mon.fail(f"{name}: a value outside the domain came back as "
                     f"another value", value=bad, got=got)
        finally:
            if hasattr(bad, "close"):
                bad.close()
        # and the codec still works
        _roundtrip(mon, name, encode, decode, make(rng, 2))
        mon.sig(name, "outside", type(bad).__name__)


CHECK = Check(
    "C01",
    [
        Workload(w_values, 24000, 900000, {"round_trips": 5000}),
        Workload(w_interleaved, 2000, 60000, {"histories": 100}),
        Workload(w_big, 24, 600),
        Workload(w_surrogates, 600, 20000, {"surrogates": 600}),
        Workload(w_shared, 600, 20000, {"reference_graphs": 100}),
        Workload(w_outside, 800, 20000, {"refusals": 300}),
    ],
    rule="a case draws values of a codec's domain (atoms, containers, nesting, "
         "boundary sizes) and round-trips them; distinct = distinct sets of "
         "(type, nesting level) per codec",
    assumptions=["value comparison is vmon.compare.same (typed, bit-exact "
                 "floats, ordered mappings)"],
)
