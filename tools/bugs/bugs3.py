from plant import bug

bug("c16-skip-matched-nests", "C16", [("structures.py",
'''    nests = [v for v in mapping.values() if isinstance(v, mtypes)]
    level_items''', '''    nests = [
        v for k, v in mapping.items()
        if isinstance(v, mtypes) and not predicate(k, v)
    ]
    level_items''')],
"a match below another match", "matches nested inside a matching mapping are not found", '''
from dustgoggles.structures import dig_for_values
m = {"a": {"b": 1, "a": 2}}
assert dig_for_values(m, "a") == [{"b": 1, "a": 2}, 2]
''')
bug("c16-shared-visits", "C16", [("structures.py",
'''            add, [dig_for_all(nest, predicate, mtypes) for nest in nests]
''', '''            add, [
                # don't dig through a mapping that is referenced twice twice
                dig_for_all(nest, predicate, mtypes)
                for nest in {id(nest): nest for nest in nests}.values()
            ]
''')],
"one mapping object referenced under two keys of a level", "matches in the second reference are not reported", '''
from dustgoggles.structures import dig_for_values
inner = {"x": 1}
assert dig_for_values({"a": inner, "b": inner}, "x") == [1, 1]
''')
bug("c16-edit-first-level", "C16", [("structures.py",
'''    for nest in [v for v in mapping.values() if isinstance(v, mtypes)]:
        dig_and_edit(nest, filter_func, setter_func, mtypes)
''', '''    edited = {key for key, _ in matches}
    for key, nest in mapping.items():
        if isinstance(nest, mtypes) and key not in edited:
            dig_and_edit(nest, filter_func, setter_func, mtypes)
''')],
"a mapping that matches (or is set) and itself contains matches",
"items inside an edited item are left unedited", '''
from dustgoggles.structures import NestingDict
n = NestingDict()
n["a"]["b"]["c"] = 1
d = n.todict()
assert type(d["a"]["b"]) is dict, type(d["a"]["b"])
''')

bug("c17-rmerge-none", "C17", [("structures.py",
'''        else:
            output[kv[0]] = map2[kv[0]]
    return output''', '''        else:
            new = map2[kv[0]]
            output[kv[0]] = map1[kv[0]] if new is None else new
    return output''')],
"the second mapping holding None under a shared key", "None in map2 does not replace map1's value", '''
from dustgoggles.structures import rmerge
assert rmerge({"a": {"b": 1}}, {"a": {"b": None}}) == {"a": {"b": None}}
''')
bug("c17-shared-branch", "C17", [("structures.py",
'''            branch = accumulated_levels.copy()
            branch[level_name] = category
            records += to_records(mapping, branch, copy(level_names))
''', '''            accumulated_levels[level_name] = category
            records += to_records(
                mapping, accumulated_levels, copy(level_names)
            )
''')],
"sibling branches of different depth, the deeper one first",
"records of a shallow branch get level names of a deeper sibling", '''
from dustgoggles.structures import to_records
got = to_records({"a": {"x": {"u": {"v": 1}}}, "b": {"w": 2}},
                 level_names=["l1", "l2", "l3", "l4"])
assert got == [{"v": 1, "l1": "a", "l2": "x", "l3": "u"},
               {"w": 2, "l1": "b"}], got
''')
bug("c17-unnest-joiner", "C17", [("structures.py",
'''    prefix = f"{escape}_{escape}".join(map(str, levels))
    if len(levels) > 0:
''', '''    prefix = f"{escape}_{escape}".join(map(str, filter(None, levels)))
    if len(levels) > 0:
''')],
"a falsy key (0 or an empty string) above the lowest level", "falsy levels vanish from flat keys, so keys collide", '''
from dustgoggles.structures import unnest
assert unnest({0: {"a": 1}, "": {"a": 2}}) == {"0_a": 1, "_a": 2}, unnest({0: {"a": 1}, "": {"a": 2}})
''')

bug("c18-falsy-keys", "C18", [("structures.py",
'''            rec['key'] = rec.get('key', i)
''', '''            rec['key'] = rec.get('key') or i
''')],
"records whose key is 0, '' or another falsy value", "falsy keys are replaced by positions", '''
from dustgoggles.structures import map_into_pool
got = map_into_pool(abs, [{"args": (-1,), "key": "a"}, {"args": (-2,), "key": 0}])
assert got == {"a": 1, 0: 2}, got
''')
bug("c18-chunk-remainder", "C18", [("structures.py",
'''            chunks = divide(self.threads, argrecs)
''', '''            chunks = list(chunked(
                argrecs, max(1, len(argrecs) // self.threads)
            ))[:self.threads]
''')],
"chunked mapping of a number of records that the pool size does not divide",
"the results of the last records are missing", '''
from dustgoggles.structures import map_into_pool
got = map_into_pool(abs, [{"args": (-i,)} for i in range(5)], threads=2)
assert got == {i: i for i in range(5)}, got
''')
bug("c18-chunk-stop", "C18", [("structures.py",
'''    return {
        rec['key']: MaybeResult(func, rec['args'], rec['kwargs'])
        for rec in argrecs
    }
''', '''    results, kwargs = {}, {}
    for rec in argrecs:
        kwargs = kwargs | rec['kwargs']
        results[rec['key']] = MaybeResult(func, rec['args'], kwargs)
    return results
''')],
"records of one chunk with different keyword arguments", "keyword arguments of a record leak into later records of its chunk", '''
from dustgoggles.structures import map_into_pool
got = map_into_pool(dict, [{"kwargs": {"a": 1}}, {"kwargs": {"b": 2}}, {}], threads=1)
assert got == {0: {"a": 1}, 1: {"b": 2}, 2: {}}, got
''')

bug("c19-none-elements", "C19", [("structures.py",
'''        except (AttributeError, TypeError):
            return default
    return level
''', '''        except (AttributeError, TypeError):
            return default
    return default if level is None else level
''')],
"an element that is there and is None, with another default", "None elements are reported as missing", '''
from dustgoggles.structures import get_from
assert get_from({"a": {"b": None}}, ["a", "b"], default=3) is None
''')
bug("c19-last-equivalent", "C19", [("structures.py",
'''        if itemhash not in self.reverse.keys():
            self.reverse[itemhash] = item
''', '''        self.reverse[itemhash] = item
''')],
"two equivalent, distinguishable values", "an earlier key gets the later, equivalent value", '''
from dustgoggles.structures import HashDict
h = HashDict(equivalence=len)
h["a"] = "xx"
h["b"] = "yy"
assert (h["a"], h["b"]) == ("xx", "xx"), (h["a"], h["b"])
''')
bug("c19-truthy-containment", "C19", [("func.py",
'''        inclusion = partial(contains, container)
        return reduce(oper, map(inclusion, items))
''', '''        found = [item for item in container if item in items]
        return reduce(oper, [item in found for item in items])
''')],
"a container that is no iterable of its members: a text that contains longer texts", "containment of longer texts is not recognized", '''
from dustgoggles.func import are_in
assert are_in(["foo", "ar"])("a foo in a bar") is True
''')
bug("c17-insert-identity", "C17", [("structures.py",
'''        if key == prior_key:
            new_dict[new_key] = new_value
''', '''        if key is prior_key:
            new_dict[new_key] = new_value
''')],
"a prior key that is equal to the mapping's key without being the same object", "the item is not inserted", '''
from dustgoggles.structures import insert_after
k = tuple([1, 2])
assert insert_after("n", 0, tuple([1, 2]), {k: 1, "b": 2}) == {k: 1, "n": 0, "b": 2}
''')

bug("c20-name-dropped", "C20", [("pivot.py",
'''    name = arr.name if hasattr(arr, "name") and library == "pandas" else None
    arr = np.asarray(arr)
''', '''    name = None
    if library == "pandas" and getattr(arr, "name", None):
        name = arr.name
    arr = np.asarray(arr)
''')],
"a Series whose name is falsy, such as 0", "falsy names are lost", '''
import pandas as pd
from dustgoggles.pivot import downcast
assert downcast(pd.Series([1, 2], name=0), library="pandas")["recast"].name == 0
''')

bug("c21-anywhere", "C21", [("pivot.py",
'''    names = df.dtypes.apply(attrgetter("name")).str.lower()
''', '''    names = df.dtypes.apply(
        lambda dtype: getattr(dtype, "subtype", dtype).name
    ).str.lower()
''')],
"a column of a compound type, such as Sparse[int64, 0]", "columns of compound types are selected by what is inside them", '''
import pandas as pd
from dustgoggles.pivot import typed_columns
df = pd.DataFrame({"a": [1, 2], "s": pd.arrays.SparseArray([0, 1])})
assert list(typed_columns(df, "int").columns) == ["a"], typed_columns(df, "int")
''')
bug("c21-split-by-label", "C21", [("pivot.py",
'''    return df.loc[predicate], df.loc[~predicate]
''', '''    hits = df.loc[predicate]
    return hits, df.drop(index=hits.index)
''')],
"rows that share their index label, one matching and one not", "misses that share a label with a hit are dropped", '''
import pandas as pd
from dustgoggles.pivot import split_on
df = pd.DataFrame({"a": [1, 2, 3]}, index=[0, 0, 1])
hits, misses = split_on(df, df["a"] == 1)
assert misses["a"].tolist() == [2, 3], misses
''')
bug("c21-first-duplicate", "C21", [("pivot.py",
'''    return dataframe.loc[:, ~dataframe.columns.duplicated()]
''', '''    return dataframe.T.drop_duplicates().T
''')],
"columns that are equal in value under different names", "equal columns with other names are dropped", '''
import pandas as pd
from dustgoggles.pivot import check_and_drop_duplicate_columns
df = pd.DataFrame([[1, 1, 1]], columns=["a", "a", "b"])
assert list(check_and_drop_duplicate_columns(df).columns) == ["a", "b"]
''')

bug("c22-squeeze-last", "C22", [("pivot.py",
'''            return series.loc[~series.index.duplicated()]
''', '''            return series.loc[~series.index.duplicated(keep="last")]
''')],
"duplicate labels with different values", "the last, not the first element of a label is kept", '''
import pandas as pd
from dustgoggles.pivot import squeeze
assert squeeze(pd.Series([1, 2, 3], index=["a", "b", "a"])).to_dict() == {"a": 1, "b": 2}
''')
bug("c22-smash-any", "C22", [("pivot.py",
'''        df = df.loc[df[by].isin(values).all(axis=1)]
''', '''        df = df.loc[df[by].isin(values).any(axis=1)]
''')],
"several grouping columns of which one has a listed value", "rows are kept that match in one column only", '''
import pandas as pd
from dustgoggles.pivot import smash
df = pd.DataFrame({"a": ["x", "x"], "b": ["y", "z"], "v": [1, 2]})
got = smash(df, ["a", "b"], ["x", "y"])
assert got.tolist() == [1], got
''')
bug("c22-unpack-positions", "C22", [("pivot.py",
'''    df = pd.DataFrame(dropped.tolist(), index=dropped.index)
''', '''    df = pd.DataFrame([row for row in dropped if len(row) > 0])
    df = df.reindex(range(len(dropped))).set_axis(dropped.index)
''')],
"an empty list between other lists", "values below an empty list move up", '''
import pandas as pd
from dustgoggles.pivot import unpack
got = unpack(pd.Series([[1], [], [2]], name="s"))
assert got["s_0"].iloc[2] == 2, got
''')
bug("c22-observed", "C22", [("pivot.py",
'''    return pd.DataFrame.from_dict(records)
''', '''    return pd.DataFrame.from_dict(records).drop_duplicates(
        subset=[cols[0]] if len(cols) else None
    )
''')],
"records that differ in a later column only", "records equal in the first column are dropped", '''
import pandas as pd
from dustgoggles.pivot import unique_to_records
df = pd.DataFrame({"a": [1, 1, 2], "b": [1, 2, 3]})
assert len(unique_to_records(df, ["a", "b"])) == 3
''')

bug("c23-window-edge", "C23", [("mosaic.py",
'''        less_than = pac.filter(group, pac.less(group[field], bounds[1]))
''', '''        less_than = pac.filter(group, pac.less_equal(group[field], bounds[1]))
''')],
"a value exactly on an inner bound", "rows on a bound are written twice", '''
import pyarrow as pa, pyarrow.parquet as pq
from dustgoggles.mosaic import sort_chunked
pq.write_table(pa.table({"a": [0.0, 5.0, 10.0]}), "i.pq")
sort_chunked("i.pq", "o.pq", "a", n_chunks=3, verbose=False)
assert pq.read_table("o.pq")["a"].to_pylist() == [0, 5, 10]
''')
bug("c24-falsy-constants", "C24", [("mosaic.py",
'''                lambda k: k in BRIEF_PQ_META_FIELDS, constants
            )
''', '''                lambda k: k in BRIEF_PQ_META_FIELDS and constants[k], constants
            )
''')],
"several row groups; the first column (number 0) or one without a dictionary page", "falsy fields are missing", '''
import pyarrow as pa, pyarrow.parquet as pq
from dustgoggles.mosaic import meta_column_df
pq.write_table(pa.table({"a": [1, 2], "b": [3, 4]}), "i.pq", row_group_size=1, use_dictionary=["b"])
df = meta_column_df("i.pq")
assert df.loc["col_ix"].tolist() == [0, 1], df
''')
bug("c24-sorted-columns", "C24", [("mosaic.py",
'''    for col in meta_df["path_in_schema"].unique():
''', '''    for col in sorted(set(meta_df["path_in_schema"])):
''')],
"several row groups and columns that are not in alphabetical order", "columns are described in another order", '''
import pyarrow as pa, pyarrow.parquet as pq
from dustgoggles.mosaic import meta_column_df
pq.write_table(pa.table({"b": [1, 2], "a": [3, 4]}), "i.pq", row_group_size=1)
assert list(meta_column_df("i.pq").columns) == ["b", "a"]
''')
bug("c24-first-group", "C24", [("mosaic.py",
'''        col_slice = meta_df.loc[meta_df["path_in_schema"] == col]
''', '''        col_slice = meta_df.loc[
            meta_df["path_in_schema"].str.startswith(col)
        ]
''')],
"several row groups and a column whose name starts with another's", "sizes of a longer-named column are added", '''
import pyarrow as pa, pyarrow.parquet as pq
from dustgoggles.mosaic import meta_column_df
pq.write_table(pa.table({"a": [1, 2], "ab": [3, 4]}), "i.pq", row_group_size=1)
df = meta_column_df("i.pq")
assert df.loc["num_values"].tolist() == [2, 2], df
''')

bug("c25-earliest-marker", "C25", [("scrape.py",
'''    for ending in KNOWN_LABEL_ENDINGS:
        if (endmatch := re.search(ending, head)) is not None:
            return head[:endmatch.span()[1]].decode()
''', '''    endings = b"|".join(KNOWN_LABEL_ENDINGS)
    if (endmatch := re.search(endings, head)) is not None:
        return head[:endmatch.span()[1]].decode()
''')],
"a label with both kinds of endings, null bytes first", "a label is cut at null bytes before its END", '''
from dustgoggles.scrape import trim_label
with open("l", "wb") as f:
    f.write(b"A = 1\\x00\\x00\\x00B = 2\\r\\nEND\\r\\nrest")
assert trim_label("l").endswith("END\\r\\n"), trim_label("l")
''')
bug("c25-greedy-subframe", "C25", [("scrape.py",
'''SUBFRAME_GROUP = re.compile(r"SUBFRAME.*?END", re.DOTALL)
''', '''SUBFRAME_GROUP = re.compile(r"SUBFRAME.*END", re.DOTALL)
''')],
"a label that goes on after its subframe block and has another END", "numbers behind the block are taken for its fields", '''
from dustgoggles.scrape import scrape_subframe
t = "GROUP = SUBFRAME\\nA = 1\\nB = 2\\nEND_GROUP\\nC = 3\\nEND"
assert scrape_subframe(t) == (1, 2), scrape_subframe(t)
''')
bug("c25-fields-win", "C25", [("scrape.py",
'''        metadata |= supplemental_search_function(label, label_text)
''', '''        for k, v in supplemental_search_function(label, label_text).items():
            if metadata.get(k) is None:
                metadata[k] = v
''')],
"a supplemental function that corrects a field a pattern has found", "corrected fields are dropped", '''
from dustgoggles.scrape import scrape_patterns
got = scrape_patterns("l", {"a": "A = (.*)"}, lambda l, t: {"a": 9, "b": 1}, lambda l: "A = 1")
assert got == {"a": 9, "b": 1}, got
''')
bug("c25-cache-by-name", "C25", [("scrape.py",
'''@cache
def scrape_from_file(label, pattern):
    return make_scraper(cached_label_loader(label))(pattern)
''', '''@cache
def _cached_scraper(label):
    return make_scraper(cached_label_loader(str(label).lower()))


@cache
def scrape_from_file(label, pattern):
    return _cached_scraper(label)(pattern)
''')],
"labels whose names have capital letters", "labels are looked up under another name", '''
from dustgoggles.scrape import scrape_from_file
with open("L.lbl", "w") as f:
    f.write("A = 1")
assert scrape_from_file("L.lbl", "A = (.*)") == 1
''')

bug("c26-unregister-falls-through", "C26", [("codex/memutilz.py",
'''        if rtype == "shared_memory":
            return
        return resource_tracker._resource_tracker.unregister(name, rtype)
''', '''        return resource_tracker._resource_tracker.unregister(name, rtype)
''')],
"unlinking a block after deactivation", "the tracker process is told to forget what it was never told of", '''
import subprocess, sys
code = """
from dustgoggles.codex.memutilz import *
deactivate_shared_memory_resource_tracker()
from multiprocessing.shared_memory import SharedMemory
b = SharedMemory("%s", True, 8)
b.close()
b.unlink()
""" % PREFIX
r = subprocess.run([sys.executable, "-c", code], capture_output=True, text=True)
assert not r.stderr and r.returncode == 0, r.stderr
''')
bug("c26-drop-all", "C26", [("codex/memutilz.py",
'''        if rtype == "shared_memory":
            return
        return resource_tracker._resource_tracker.register(name, rtype)
''', '''        return
''')],
"a semaphore created after deactivation in a process that dies", "other resources are not tracked any more", '''
from multiprocessing import resource_tracker
seen = []
real = resource_tracker._resource_tracker
class Spy:
    def register(self, name, rtype):
        seen.append(name)
    def unregister(self, name, rtype):
        pass
from dustgoggles.codex.memutilz import deactivate_shared_memory_resource_tracker
deactivate_shared_memory_resource_tracker()
resource_tracker._resource_tracker = Spy()
resource_tracker.register("x", "semaphore")
resource_tracker._resource_tracker = real
assert seen == ["x"]
''')
bug("c26-once", "C26", [("codex/memutilz.py",
'''    if "shared_memory" in resource_tracker._CLEANUP_FUNCS:
        del resource_tracker._CLEANUP_FUNCS["shared_memory"]
''', '''    resource_tracker._CLEANUP_FUNCS.clear()
''')],
"semaphores left behind by a process", "nothing is cleaned up any more, whatever it is", '''
from multiprocessing import resource_tracker
before = set(resource_tracker._CLEANUP_FUNCS)
from dustgoggles.codex.memutilz import deactivate_shared_memory_resource_tracker
deactivate_shared_memory_resource_tracker()
assert set(resource_tracker._CLEANUP_FUNCS) == before - {"shared_memory"}
''')

bug("c20-sampled", "C20", [("pivot.py",
'''    arr_nzero = arr_finite[nzero_mask]
''', '''    # enough to judge by
    arr_nzero = arr_finite[nzero_mask][:10000]
''')],
"more than 10000 elements, with an element further on that needs a wider type",
"elements beyond the first 10000 exceed the tolerance", '''
import numpy as np
from dustgoggles.pivot import downcast
a = np.append(np.ones(10000), 1.0001)
assert np.abs(downcast(a)["recast"] - a).max() <= 5e-5
''')
bug("c20-relative-only", "C20", [("pivot.py",
'''        offsets = np.abs(arr_nzero - recast)
''', '''        offsets = np.abs((arr_nzero - recast) / max(1, abs(amax)))
''')],
"tolerances that large numbers of small relative error exceed",
"large elements exceed the absolute tolerance", '''
import numpy as np
from dustgoggles.pivot import downcast
a = np.array([1e6 + 0.3, 2.5])
r = downcast(a, atol=1e-3, rtol=1)["recast"]
assert np.abs(r - a).max() <= 1e-3, r
''')
bug("c23-rounded-bounds", "C23", [("mosaic.py",
'''    windows = list(windowed(np.linspace(min_value, max_value, n_chunks), 2))
''', '''    bounds = np.linspace(min_value, max_value, n_chunks).round(6)
    windows = list(windowed(bounds, 2))
''')],
"a smallest or largest value with more than six decimal places", "rows with extreme values are lost", '''
import pyarrow as pa, pyarrow.parquet as pq
from dustgoggles.mosaic import sort_chunked
pq.write_table(pa.table({"a": [0.12345678, 0.5, 0.3]}), "i.pq")
sort_chunked("i.pq", "o.pq", "a", verbose=False)
assert pq.read_table("o.pq")["a"].to_pylist() == [0.12345678, 0.3, 0.5]
''')
bug("c23-dotted-names", "C23", [("mosaic.py",
'''        rec for rec in meta_records if rec["path_in_schema"] == sort_column
''', '''        rec for rec in meta_records
        if rec["path_in_schema"].split(".")[0] == sort_column
''')],
"another column whose name is the sort column's, a dot and more", "rows are written twice", '''
import pyarrow as pa, pyarrow.parquet as pq
from dustgoggles.mosaic import sort_chunked
pq.write_table(pa.table({"a": [3, 1, 2], "a.b": [1, 2, 3]}), "i.pq")
sort_chunked("i.pq", "o.pq", "a", verbose=False)
assert pq.read_table("o.pq")["a"].to_pylist() == [1, 2, 3]
''')
bug("c23-lone-row", "C23", [("mosaic.py",
'''            if len(window_table) == 0:
                continue
            if verbose''', '''            if len(window_table) <= 1 and len(windows) > 100:
                continue
            if verbose''')],
"more than 100 chunks, one of which holds a single row", "single rows are lost", '''
import pyarrow as pa, pyarrow.parquet as pq
from dustgoggles.mosaic import sort_chunked
pq.write_table(pa.table({"a": [3, 1, 2]}), "i.pq")
sort_chunked("i.pq", "o.pq", "a", n_chunks=150, verbose=False)
assert pq.read_table("o.pq")["a"].to_pylist() == [1, 2, 3]
''')
