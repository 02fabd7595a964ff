"""generators of hostile values"""
import datetime as dt
import decimal
import enum
import fractions
import functools
import math
import operator
import string
import uuid
from collections import Counter, OrderedDict, deque, namedtuple

STR_POOL = [
    "", " ", "a", "A", "0", "1", "-1", "None", "nan", "true", "\n", "\t\r\n",
    "\x00", "\x7f", "\x1b[0m", "é", "ß", "İ", "ñandú", "日本語", "🦀🚀", "\u200b",
    "\u2028", "\ufeff", "a'b", 'a"b', "a\\b", "'''", '"""', "{}", "[1, 2]",
    "%s", "a/b", "b'x'", "\u202e", "e\u0301", "x" * 127, "y" * 128,
    "z" * 255, "w" * 256, "v" * 257, "u" * 4095, "t" * 4097,
]


def text(rng, n=12):
    roll = rng.random()
    if roll < 0.45:
        return rng.choice(STR_POOL)
    if roll < 0.8:
        return "".join(rng.choice(string.printable)
                       for _ in range(rng.randint(0, n)))
    out = []
    for _ in range(rng.randint(0, n)):
        c = rng.choice([rng.randint(0, 0x7f), rng.randint(0x80, 0xd7ff),
                        rng.randint(0xe000, 0x10ffff)])
        out.append(chr(c))
    return "".join(out)


def integer(rng):
    roll = rng.random()
    if roll < 0.4:
        return rng.randint(-3, 300)
    if roll < 0.8:
        k = rng.choice([7, 8, 15, 16, 31, 32, 53, 63, 64, 100, 500])
        return rng.choice([1, -1]) * ((1 << k) + rng.randint(-2, 2))
    return rng.choice([1, -1]) * rng.getrandbits(rng.randint(1, 3000))


FLOATS = [
    0.0, -0.0, 0.1, -0.1, 1.0, 1e-5, 1 / 3, 5e-324, -5e-324, 2.2e-308,
    1.7976931348623157e308, -1.7976931348623157e308, 1e16, 1e22, 123456789.125,
    2.0 ** 53, 2.0 ** 63, 2.0 ** 64, 3.4028234663852886e38, 65504.0, 0.30000000000000004,
]


def real(rng, nonfinite=False):
    if nonfinite and rng.random() < 0.15:
        return rng.choice([math.inf, -math.inf, math.nan])
    roll = rng.random()
    if roll < 0.4:
        return rng.choice(FLOATS)
    if roll < 0.7:
        return rng.uniform(-1000, 1000)
    return rng.choice([1, -1]) * rng.random() * 10.0 ** rng.randint(-300, 300)


def blob(rng, n=300):
    roll = rng.random()
    if roll < 0.3:
        return rng.choice([b"", b"\x00", b"\n", b"\xff" * 7, b"'", b'"'])
    return rng.randbytes(rng.randint(0, n))


# ---- JSON-stable
def json_value(rng, depth=4):
    roll = rng.random()
    if depth > 0 and roll < 0.4:
        n = rng.choice([0, 1, 2, 3, 5])
        if rng.random() < 0.5:
            return [json_value(rng, depth - 1) for _ in range(n)]
        return {text(rng): json_value(rng, depth - 1) for _ in range(n)}
    return rng.choice([
        lambda: None, lambda: True, lambda: False, lambda: text(rng),
        lambda: integer(rng), lambda: real(rng, nonfinite=True),
        lambda: text(rng, 60),
    ])()


# ---- python literals
def literal_atom(rng):
    return rng.choice([
        lambda: None, lambda: True, lambda: False, lambda: text(rng),
        lambda: integer(rng), lambda: real(rng), lambda: blob(rng, 40),
        # (a negative zero has no literal as part of a complex number)
        lambda: complex(real(rng) or 1.0, real(rng) or 1.0),
    ])()


def literal_key(rng, depth=2):
    if depth > 0 and rng.random() < 0.3:
        return tuple(literal_key(rng, depth - 1)
                     for _ in range(rng.randint(0, 3)))
    return literal_atom(rng)


def literal(rng, depth=4):
    roll = rng.random()
    if depth > 0 and roll < 0.5:
        n = rng.choice([0, 1, 1, 2, 3, 5])
        kind = rng.choice(["list", "tuple", "set", "dict"])
        if kind == "list":
            return [literal(rng, depth - 1) for _ in range(n)]
        if kind == "tuple":
            return tuple(literal(rng, depth - 1) for _ in range(n))
        if kind == "set":
            return {literal_key(rng) for _ in range(n)}
        return {literal_key(rng): literal(rng, depth - 1) for _ in range(n)}
    return literal_atom(rng)


# ---- picklable objects
Point = namedtuple("Point", "x y")


class Plain:
    def __init__(self, **kw):
        self.__dict__.update(kw)

    def __eq__(self, other):
        return type(other) is Plain and self.__dict__ == other.__dict__

    def __samestate__(self):
        return self.__dict__

    __hash__ = None


class Stateful:
    __slots__ = ("a", "b")

    def __init__(self, a, b):
        self.a, self.b = a, b

    def __getstate__(self):
        return [self.a, self.b]

    def __setstate__(self, state):
        self.a, self.b = state

    def __eq__(self, other):
        return type(other) is Stateful and (self.a, self.b) == (
            other.a, other.b)

    def __samestate__(self):
        return [self.a, self.b]

    __hash__ = None


class StrSub(str):
    pass


class IntSub(int):
    pass


class FloatSub(float):
    pass


class Color(enum.Enum):
    RED = 1
    BLUE = "blue"


class Level(enum.IntEnum):
    LOW = 0
    HIGH = 7


def module_function(x, y=2):
    return x, y


NAMES = ["self", "args", "kwargs", "func", "key", "value", "name", "items",
         "keys", "get", "__class__", "__dict__", "__name__", "class", "def",
         "None", "True", "index", "func_0", "x.y", "100%", "a{b}", "{0}",
         "UPPER", "Mixed Case", "two\nlines", "tab\tbed", "back\\slash",
         "quo'te", 'dou"ble', " edge ", "12", "1e3", "/", "a/b", "\0",
         "long " * 20, "\U0001f980", "e\u0301", "__private", "_a_"]


def rich_key(rng, depth=2):
    """anything hashable that is equal to itself only, or to its equals"""
    return rng.choice([
        lambda: rng.choice(NAMES), lambda: rng.choice(NAMES),
        lambda: text(rng), lambda: text(rng, 80), lambda: integer(rng),
        lambda: real(rng), lambda: blob(rng, 20), lambda: StrSub(text(rng)),
        lambda: IntSub(integer(rng)), lambda: FloatSub(real(rng)),
        lambda: Color.RED, lambda: Level.HIGH,
        lambda: dt.date(2000 + rng.randint(0, 99), 2, 3),
        lambda: decimal.Decimal(rng.choice(["0.1", "1E+400", "3.14"])),
        lambda: fractions.Fraction(rng.randint(-99, 99), 7),
        lambda: complex(real(rng), 1.0), lambda: range(rng.randint(0, 9)),
        lambda: Ellipsis, lambda: int, lambda: len,
        lambda: uuid.UUID(int=rng.getrandbits(128)),
        lambda: tuple(rich_key(rng, depth - 1) for _ in range(
            rng.randint(0, 4))) if depth else (),
        lambda: frozenset(rich_key(rng, depth - 1) for _ in range(
            rng.randint(0, 3))) if depth else frozenset(),
        lambda: Point(rng.randint(0, 9), rng.choice("ab")),
    ])()


def rich(rng):
    """any object; comparing it to others for equality gives a truth value"""
    n = rng.choice([0, 1, 2, 3, 7, 20, 70])
    return rng.choice([
        lambda: rich_key(rng), lambda: rich_key(rng), lambda: rich_key(rng),
        lambda: [rich_key(rng, 0) for _ in range(n)],
        lambda: {rich_key(rng, 0) for _ in range(n)},
        lambda: {rich_key(rng, 0): i for i in range(n)},
        lambda: bytearray(blob(rng, 20)),
        lambda: deque([1, 2], maxlen=5), lambda: Plain(a=1), lambda: object(),
        lambda: real(rng, nonfinite=True), lambda: slice(1, 5),
        lambda: ValueError("x"),
        lambda: NotImplementedError, lambda: iter([1, 2]),
    ])()


def atom(rng):
    return rng.choice([
        lambda: literal_atom(rng), lambda: literal_atom(rng),
        lambda: real(rng, nonfinite=True),
        lambda: complex(real(rng), real(rng)),
        lambda: bytearray(blob(rng, 30)),
        lambda: dt.datetime(2000 + rng.randint(0, 50), 1 + rng.randint(0, 11),
                            1 + rng.randint(0, 27), microsecond=rng.randint(
                                0, 999999)),
        lambda: dt.timedelta(rng.randint(-9, 9), rng.randint(0, 9999)),
        lambda: decimal.Decimal(rng.choice(["0.1", "-0", "1E+400", "3.14"])),
        lambda: fractions.Fraction(rng.randint(-99, 99), rng.randint(1, 99)),
        lambda: uuid.UUID(int=rng.getrandbits(128)),
        lambda: range(rng.randint(-5, 5), rng.randint(-5, 50)),
        lambda: StrSub(text(rng)), lambda: Ellipsis,
        lambda: module_function, lambda: len, lambda: dict,
        lambda: operator.itemgetter(rng.randint(0, 5)).__reduce__()[1],
        lambda: slice(rng.randint(0, 3), rng.randint(4, 9)),
        lambda: np_value(rng),
    ])()


def np_value(rng):
    import numpy as np
    return rng.choice([
        lambda: np.float32(rng.random()), lambda: np.int16(rng.randint(-9, 9)),
        lambda: np.arange(rng.randint(0, 50)),
        lambda: np.array([rng.random() * 9] * 3, dtype=">f8"),
    ])()


def picklable(rng, depth=3):
    roll = rng.random()
    if depth > 0 and roll < 0.55:
        n = rng.choice([0, 1, 1, 2, 3, 6])

        def sub():
            return picklable(rng, depth - 1)
        kind = rng.randrange(11)
        if kind == 0:
            return [sub() for _ in range(n)]
        if kind == 1:
            return tuple(sub() for _ in range(n))
        if kind == 2:
            return {literal_key(rng): sub() for _ in range(n)}
        if kind == 3:
            return {literal_key(rng) for _ in range(n)}
        if kind == 4:
            return OrderedDict((literal_key(rng), sub()) for _ in range(n))
        if kind == 5:
            return deque([sub() for _ in range(n)], maxlen=rng.choice(
                [None, 10]))
        if kind == 6:
            return Counter(text(rng) for _ in range(n))
        if kind == 7:
            return Point(sub(), sub())
        if kind == 8:
            return Plain(a=sub(), b=sub())
        if kind == 9:
            return Stateful(sub(), sub())
        return frozenset(literal_key(rng) for _ in range(n))
    return atom(rng)


def alter(rng, value):
    """
    change a value in place, at some level; False if there is nothing to
    change.  sets, bytearrays etc. included.
    """
    parts = []
    if isinstance(value, dict):
        parts = list(value.values())
    elif isinstance(value, (list, tuple, deque)):
        parts = list(value)
    elif isinstance(value, Plain):
        parts = list(value.__dict__.values())
    elif isinstance(value, Stateful):
        parts = [value.a, value.b]
    if rng.random() < 0.6:
        rng.shuffle(parts)
        if any(part is not value and alter(rng, part) for part in parts[:9]):
            return True
    if type(value) in (list, deque):
        # of the same length, if possible
        if value and rng.random() < 0.5:
            value[rng.randrange(len(value))] = f"altered {rng.random()}"
        else:
            value.append(rng.random())
    elif isinstance(value, Counter):
        value["altered"] += rng.randint(1, 9)
    elif isinstance(value, dict):
        if value and rng.random() < 0.5:
            value[rng.choice(list(value))] = f"altered {rng.random()}"
        else:
            value["altered"] = rng.random()
    elif type(value) is set:
        value.symmetric_difference_update({f"altered {rng.random()}"})
    elif type(value) is bytearray:
        value.append(rng.randrange(256))
    elif isinstance(value, Plain):
        value.a = f"altered {rng.random()}"
    elif isinstance(value, Stateful):
        value.b = f"altered {rng.random()}"
    elif type(value).__name__ == "ndarray" and value.size and (
            value.flags.writeable and value.dtype.kind in "iuf"):
        value.flat[rng.randrange(value.size)] += 1
    else:
        return any(part is not value and alter(rng, part)
                   for part in parts[:9])
    return True


# ---- names that are usable as keys of shared objects (a key is part of a
# shared-memory name: no slash or NUL, limited length)
KEY_ALPHABET = string.ascii_letters + string.digits + " _-.,:;()[]{}'\"!@#$%^&*+=~|<>?"
KEY_POOL = ["a", "b", "key", "k 1", "ключ", "日本", "é", "1", "007", "count",
            "lock", "_", "__", "key_0", "name_0", "val_0", "A", "a.b", "a_b",
            "..", "-", "null", "é.é", "in", "ndex", "0", "xindex", "k" * 60, "k" * 130,
            "Index", "INDEX", "hold", "a\tb", "a\nb", "\\", "%", "'", '"']


def key(rng):
    if rng.random() < 0.5:
        return rng.choice(KEY_POOL)
    return "k" + "".join(rng.choice(KEY_ALPHABET)
                         for _ in range(rng.randint(0, 12)))


# different keys that some digest, truncation or normal form of would confuse
ALIKE = [
    ("k809937", "k1077278"), ("k334167", "k981290"),  # SHA-256, first/last 40
    ("k153629", "k164064"), ("k743767", "k779473"),   # SHA-256, SHA-1
    ("k67201", "k93321"), ("k1029737", "k1838336"),   # MD5, BLAKE2b
    ("plumless", "buckeroo"), ("k120", "k201"),       # CRC-32, Adler-32
    ("p" * 60 + "1", "p" * 60 + "2"), ("1" + "s" * 60, "2" + "s" * 60),
    ("p" * 130 + "1", "p" * 130 + "2"), ("1" + "s" * 180, "2" + "s" * 180),
    ("m" * 70 + "1" + "m" * 70, "m" * 70 + "2" + "m" * 70),
    ("Key", "key"), ("\u00e9", "e\u0301"), ("a ", "a"), (" a", "a"),
    ("stra\u00dfe", "strasse"), ("\ufb01", "fi"), ("a.b", "a_b"),
    ("1", "01"), ("1", "1.0"), ("ab", "ba"), ("-1", "-2"),
]


def keys(rng, n):
    out = []
    if n > 1 and rng.random() < 0.2:
        out += rng.choice(ALIKE)
    while len(out) < n:
        k = key(rng)
        if k not in out and not k.startswith("index"):
            out.append(k)
    return out


# ---- arrays
DTYPES = [
    "?", "i1", "u1", "<i2", ">i2", "<u2", ">u2", "<i4", ">i4", "<u4", ">u4",
    "<i8", ">i8", "<u8", ">u8", "<f2", ">f2", "<f4", ">f4", "<f8", ">f8",
    "<f16", "<c8", ">c8", "<c16", ">c16", "<c32", "S1", "S7", "S300", "<U1",
    ">U5", "<U80", "V3", "<M8[ns]", ">M8[D]", "<M8[s]", "<m8[us]", ">m8[h]",
]


def array(rng, dtypes=DTYPES, maxdim=5, empties=True):
    import numpy as np
    dtype = np.dtype(rng.choice(dtypes))
    ndim = rng.choice([0, 1, 1, 1, 2, 2, 3, maxdim])
    shape = []
    for _ in range(ndim):
        low = 0 if empties and rng.random() < 0.08 else 1
        shape.append(rng.choice([low, 1, 2, 3, 5, 7])
                     if low else rng.choice([0, 0, 1, 2]))
    if rng.random() < 0.12:
        shape = [rng.choice([255, 256, 257, 1000, 4096, 4097, 70000])]
        shape[0] = min(shape[0], max(300000 // dtype.itemsize, 255))
    n = int(np.prod(shape, dtype=int))
    raw = rng.randbytes(n * dtype.itemsize)
    if dtype.kind == "b":
        raw = bytes(b & 1 for b in raw)
    if dtype.kind == "U":
        pool = [ord(c) for c in "a b\x7f"] + [0xe9, 0x65e5, 0x1f980, 0]
        code = np.array([rng.choice(pool) for _ in range(n * dtype.itemsize
                                                         // 4)],
                        dtype=dtype.byteorder + "u4" if dtype.byteorder in
                        "<>" else "<u4")
        raw = code.tobytes()
    a = np.frombuffer(raw, dtype=dtype).reshape(shape).copy()
    layout = rng.randrange(6)
    if layout == 1 and a.ndim >= 1:
        a = np.asfortranarray(a)
    elif layout == 2 and a.ndim >= 1:
        a = a[::-1]
    elif layout == 3 and a.ndim >= 2:
        a = a.T
    elif layout == 4 and a.ndim >= 1 and a.shape[0] > 1:
        a = a[::2]
    elif layout == 5 and a.ndim >= 1:
        a = np.broadcast_to(a[:1], (3,) + a.shape[1:]) if a.shape[0] else a
    return a


def size(rng, small, p=0.004, large=(130, 257, 1001, 1100, 4099)):
    """a number of things; now and then one beyond common thresholds"""
    return rng.choice(large) if rng.random() < p else rng.choice(small)
