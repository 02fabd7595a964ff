"""generators of nested mappings"""
import collections
from collections import OrderedDict, UserDict, defaultdict
from collections.abc import Mapping
from types import MappingProxyType

from vmon import gen


class OwnMapping(Mapping):
    """a mapping that is nobody's subclass"""

    def __init__(self, *args, **kw):
        self._d = dict(*args, **kw)

    def __getitem__(self, k):
        return self._d[k]

    def __iter__(self):
        return iter(self._d)

    def __len__(self):
        return len(self._d)


class SubDict(dict):
    pass


def default_dict(items):
    d = defaultdict(list)
    d.update(items)
    return d


def nesting(items):
    from dustgoggles.structures import NestingDict
    d = NestingDict()
    d.update(items)
    return d


DICTS = [dict, dict, dict, OrderedDict, SubDict, default_dict, nesting]
OTHERS = [UserDict, OwnMapping, lambda items: MappingProxyType(dict(items))]

KEYS = ["a", "b", "c", "", "_", "a_b", "key", "é", 0, 1, -1, 2.5, None, (1,),
        ("a", "b"), b"a", frozenset([1]), "0", "None", float("inf"), False]


def twin(k):
    """something equal to k that is, where there is such, another object"""
    if type(k) not in (str, bool, int, tuple, frozenset, bytes, float):
        return k
    if type(k) is int and abs(k) > 2 ** 53:
        return int(str(k)) if abs(k) < 10 ** 4000 else k
    if isinstance(k, str):
        return "".join(list(k)) if len(k) > 1 else k
    if isinstance(k, (bool, int)):
        return float(k)
    if isinstance(k, (tuple, frozenset)):
        return type(k)([*k][:]) if len(k) else k
    if isinstance(k, bytes):
        return bytes(bytearray(k))
    if isinstance(k, float):
        return k * 1.0
    return k


class Same:
    """equal to nothing but itself"""

    def __init__(self, label):
        self.label = label

    def __repr__(self):
        return f"<{self.label}>"


def leaf(rng):
    return rng.choice([
        lambda: rng.randint(0, 3), lambda: rng.choice(["a", "b", "x", ""]),
        lambda: None, lambda: [1, {"a": 1}], lambda: rng.choice(
            [True, False, 0.0, 1.0]), lambda: (1, "a"), lambda: {1, 2},
        lambda: Same(rng.randint(0, 99)), lambda: float("nan"), lambda: [],
        lambda: gen.text(rng), lambda: len, lambda: gen.rich(rng),
        lambda: gen.rich(rng),
    ])()


def nested(rng, depth=4, types=DICTS, keys=KEYS, make_leaf=leaf, p=0.45,
           empties=True):
    n = rng.choice([0, 1, 2, 2, 3, 5] if empties else [1, 2, 2, 3, 5])
    items = []
    some = rng.sample(keys, min(n, len(keys)))
    if depth < 2 and rng.random() < 0.002:
        # broad
        some += [f"k{i}" for i in range(rng.choice([130, 300, 1100]))]
    if some and rng.random() < 0.25:
        # keys of any kind
        i, k = rng.randrange(len(some)), gen.rich_key(rng)
        if k not in some:
            some[i] = k
    for k in some:
        if depth > 0 and rng.random() < p:
            v = nested(rng, depth - 1, types, keys, make_leaf, p, empties)
        else:
            v = make_leaf(rng)
        items.append((k, v))
    return rng.choice(types)(items)


def snapshot(x):
    """structure and identity of leaves, for before / after comparisons"""
    if isinstance(x, Mapping):
        return type(x), [(k, snapshot(v)) for k, v in x.items()]
    if isinstance(x, (list, set, tuple)):
        return type(x), id(x), repr(x)
    return id(x)


def shape(x):
    if isinstance(x, Mapping):
        return type(x).__name__[0], [shape(v) for v in x.values()]
    return 0
