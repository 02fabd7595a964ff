CODECS, MEM, IMP = "codex/codecs.py", "codex/memutilz.py", "codex/implements.py"
COMP, TRK, DYN = "composition.py", "tracker.py", "dynamic.py"
STR, FUNC, PIV = "structures.py", "func.py", "pivot.py"
MOS, SCR = "mosaic.py", "scrape.py"


bug("c16-tuple-constants", "C16", [(STR, '''    elif match == "value":
        return valonly(partial(default, putative_predicate))
''', '''    elif match == "value":
        compare = partial(default, putative_predicate)
        if isinstance(putative_predicate, tuple):
            # equal to tuples alone. don't compare it to arrays and the like
            return valonly(lambda v: isinstance(v, tuple) and compare(v))
        return valonly(compare)
''')], "a custom comparison of values with a tuple of alternatives",
"entries with a matching value are not found", '''
from operator import contains
from dustgoggles.structures import dig_for_keys, dig_for_value
d = {"a": 1, "b": {"c": 2, "d": (1, 2)}}
assert dig_for_value(d, (1, 2), "value") == (1, 2)
assert dig_for_keys(d, (1, 2), "value", base_pred=contains) == ["a", "c"]
''')

bug("c17-parents-children", "C17", [(STR, '''                self, lambda _, v: is_it(NestingDict)(v), lambda _, v: dict(v)
''', '''                self, lambda _, v: type(v) is type(self), lambda _, v: dict(v)
''')], "a subclass of NestingDict, or one stored inside of a plain NestingDict",
"levels of another class are left as they are by todict()", '''
from dustgoggles.structures import NestingDict


class Sub(NestingDict):
    pass

n = NestingDict()
n["a"]["b"] = 1
n["s"] = Sub()
n["s"]["x"]["y"] = 2
out = n.todict()
assert out == {"a": {"b": 1}, "s": {"x": {"y": 2}}}
assert type(out["a"]) is dict
assert type(out["s"]) is dict and type(out["s"]["x"]) is dict, out
''')

bug("c18-silent-exceptions", "C18", [(STR, '''    def get(self):
        if isinstance(self.value, Exception):
            raise self.value
        return self.value
''', '''    def get(self):
        if isinstance(self.value, Exception) and self.value.args:
            raise self.value
        return self.value
''')], "a call in a serial or chunked map that raises an exception without "
"arguments, got with raise_exc",
"the exception is not raised", '''
from dustgoggles.structures import MaybePool


def fail(*args):
    raise ValueError(*args)

for args in (("a",), ()):
    pool = MaybePool()
    pool.map(fail, [{"args": args}])
    try:
        pool.get(raise_exc=True)
    except ValueError:
        continue
    raise AssertionError(f"not raised: {args}")
''')

bug("c19-eager-inputs", "C19", [(FUNC, '''    return evaluator(mapper(func, *iterables))
''', '''    return evaluator(mapper(func, *map(tuple, iterables)))
''')], "an iterable that does not end, or is shared, beside a shorter one",
"it is consumed altogether", '''
from itertools import count
from dustgoggles.func import gmap
source = iter(range(10))
assert gmap(pow, [2, 3], source) == (1, 3)
assert next(source) == 2
''')

bug("c20-wide-first", "C20", [(PIV, '''        ('uint', 'int', 'float'), (8, 16, 32, 64, 128)
    ):
        # we're''', '''        ('uint', 'int', 'float'), (16, 8, 32, 64, 128)
    ):
        # we're''')], "float values that are small whole numbers",
"they become 16-bit integers where 8 bits are enough", '''
import numpy as np
from dustgoggles.pivot import downcast
assert downcast(np.array([1.0, 200.0]))["recast"].dtype == np.uint8
assert downcast(np.array([1.0, -100.0]))["recast"].dtype == np.int8
assert downcast(np.array([1.0, 300.0]))["recast"].dtype == np.uint16
''')

bug("c24-first-groups", "C24", [(MOS, '''        constants, _ = extract_constants(col_slice)
''', '''        # a writer's options don't change within a file
        constants, _ = extract_constants(col_slice.head(2))
''')], "a column whose third row group or a later one is encoded otherwise",
"the flags of the first row groups are given for the file", '''
import pandas as pd
import pyarrow as pa
from pyarrow import parquet
from dustgoggles.mosaic import meta_record_df, parquet_metadata_records
parquet.write_table(pa.table({"a": [1, 2, 3]}), "f.parquet", row_group_size=1)
records = parquet_metadata_records("f.parquet")
assert meta_record_df(records)["compression"].iloc[0] == "SNAPPY"
records[2]["compression"] = "GZIP"
assert pd.isna(meta_record_df(records)["compression"].iloc[0])
''')

bug("c02-trailing-zeros", "C02", [(MEM, '''    block = SharedMemory(address)
    return block.buf.tobytes()
''', '''    block = SharedMemory(address)
    head = block.buf[:2 ** 20].tobytes()
    if block.size <= 2 ** 20:
        return head
    # large blocks may be padded to whole pages
    return head + block.buf[2 ** 20:].tobytes().rstrip(b"\\0")
''')], "more than a megabyte ending in null bytes",
"the null bytes are lost", '''
from dustgoggles.codex.memutilz import (
    delete_block, fetch_block_bytes, open_block)
for n in (10, 2 ** 20 + 10):
    block = open_block(f"{PREFIX}_a", n)
    try:
        block.buf[:] = b"x" * (n - 3) + bytes(3)
        assert len(fetch_block_bytes(f"{PREFIX}_a")) == n, n
    finally:
        delete_block(f"{PREFIX}_a")
''')
