"""C24: parquet metadata records and frames vs pyarrow's own metadata"""
import math
from pathlib import Path

import pandas as pd
import pyarrow as pa
from pyarrow import parquet

from dustgoggles import mosaic
from vmon import frames, gen
from vmon.core import Check, Workload

BRIEF = ["column", "type", "comp_size", "uncomp_size", "num_values",
         "dict_page", "encodings", "compression", "col_ix"]


def column(rng, n):
    holes = rng.choice([0, 0, 0.2, 0.7, 1.0])

    def fill(make, typ):
        return pa.array([None if rng.random() < holes else make()
                         for _ in range(n)], typ)
    return rng.choice([
        lambda: fill(lambda: rng.randint(-5, 100), pa.int64()),
        lambda: fill(lambda: rng.randint(0, 2), pa.int8()),
        lambda: fill(lambda: rng.randint(0, 2**31), pa.uint32()),
        lambda: fill(lambda: rng.choice(["a", "bb", "", "é" * 40]),
                     pa.string()),
        lambda: fill(lambda: "x", pa.string()),
        lambda: fill(lambda: rng.uniform(-1, 1), pa.float64()),
        lambda: fill(lambda: rng.choice([1.5, math.nan]), pa.float32()),
        lambda: fill(lambda: rng.random() < 0.5, pa.bool_()),
        lambda: fill(lambda: rng.randint(0, 10**12), pa.timestamp("us")),
        lambda: fill(lambda: rng.randbytes(3), pa.binary()),
        lambda: fill(lambda: rng.randint(0, 20000), pa.date32()),
        lambda: pa.array([None] * n, pa.null()),
        lambda: fill(lambda: rng.choice("uv"), pa.string())
        .dictionary_encode(),
    ])()


NAMES = ["a", "b", "A", "a.b", "é", "column", "type", "num_values", "0",
         "min", "index", " ", "row_group", "path_in_schema", "x y"]


def write(rng, path):
    n = gen.size(rng, [0, 1, 2, 5, 20, 60], 0.01, (300, 1200))
    k = gen.size(rng, range(1, 7), 0.01, (12, 40))
    names = rng.sample(NAMES + [f"c{i}" for i in range(max(0, k - 6))], k)
    table = pa.table({c: column(rng, n) for c in names})
    opts = {}
    if rng.random() < 0.4:
        opts["compression"] = rng.choice([
            "none", "gzip", "zstd", "snappy",
            {c: rng.choice(["none", "gzip", "snappy"]) for c in names}])
    if rng.random() < 0.4:
        opts["use_dictionary"] = rng.choice([
            True, False, rng.sample(names, rng.randint(1, k))])
    if rng.random() < 0.25:
        opts["write_statistics"] = rng.choice([
            False, rng.sample(names, rng.randint(1, k))])
    if rng.random() < 0.2:
        opts["data_page_version"] = "2.0"
    if rng.random() < 0.3:
        parquet.write_table(table, path, **opts)
    elif rng.random() < 0.6:
        parquet.write_table(table, path, row_group_size=rng.choice(
            [1, 2, 3, 7, 20]), **opts)
    else:
        with parquet.ParquetWriter(path, table.schema, **opts) as writer:
            at = 0
            while at < n or at == 0:
                size = rng.choice([1, 2, 5, 20, 30])
                writer.write_table(table.slice(at, size))
                at += size
    return table


def w_groupless(mon, rng):
    """no row groups at all"""
    k = rng.randint(1, 4)
    schema = pa.schema([(c, pa.int8()) for c in rng.sample(NAMES, k)])
    parquet.ParquetWriter("f.parquet", schema).close()
    if parquet.read_metadata("f.parquet").num_row_groups == 0:
        mon.eq(mosaic.parquet_metadata_records("f.parquet"), [],
               "records of a file without row groups")
        mon.ev("groupless_files")


def plain(x):
    return repr(frames.cell(x))


def varied(mon, rng, records, extended):
    """records of files of other writers: row groups may differ in kind"""
    records = [dict(r) for r in records]
    for r in rng.sample(records, rng.randint(1, min(3, len(records)))):
        key = rng.choice(["compression", "encodings", "has_dictionary_page"])
        r[key] = {"compression": "LZ4", "encodings": ("OTHER",),
                  "has_dictionary_page": not r["has_dictionary_page"]}[key]
    frame = mosaic.meta_record_df(records, extended=extended)
    names = list(dict.fromkeys(r["path_in_schema"] for r in records))
    mon.eq(list(frame["column"]), names, "entries in file order")
    for c, name in enumerate(names):
        mine = [r for r in records if r["path_in_schema"] == name]
        for short, key in (("compression", "compression"),
                           ("encodings", "encodings"),
                           ("dict_page", "has_dictionary_page")):
            values = {r[key] for r in mine}
            got = frame.iloc[c].get(short, None)
            if len(values) == 1:
                mon.eq(plain(got), plain(values.pop()), f"{key} of groups "
                       "that agree", column=name, extended=extended)
            else:
                mon.check(not isinstance(got, tuple) and pd.isna(got),
                          f"{key} although row groups differ", got=got,
                          values=values, column=name, extended=extended)
                mon.ev("fields_varying_between_groups")


def w_metadata(mon, rng):
    path = rng.choice([str, Path])("f.parquet")
    table = write(rng, path)
    before = Path(path).read_bytes()
    meta = parquet.read_metadata(path)
    ncol, ngroup = meta.num_columns, meta.num_row_groups
    data = parquet.ParquetFile(path)
    chunks = {(g, c): meta.row_group(g).column(c)
              for g in range(ngroup) for c in range(ncol)}
    # --- records
    records = mosaic.parquet_metadata_records(path)
    mon.check(type(records) is list and len(records) == ncol * ngroup,
              "number of records", got=len(records), want=(ncol, ngroup))
    where = {(r["row_group"], r["col_ix"]): r for r in records}
    mon.check(set(where) == set(chunks), "one record per column and group",
              got=list(where))
    counts = {}
    for at, chunk in chunks.items():
        rec = where[at]
        for key in ("path_in_schema", "physical_type", "compression",
                    "total_compressed_size", "total_uncompressed_size",
                    "has_dictionary_page", "is_stats_set"):
            mon.eq(plain(rec[key]), plain(getattr(chunk, key)),
                   f"{key} of a record", at=at)
        mon.eq(sorted(rec["encodings"]), sorted(chunk.encodings),
               "encodings of a record")
        stats = chunk.statistics
        if stats is None:
            mon.eq(rec["num_values"], chunk.num_values,
                   "values of a record without statistics")
            mon.ev("chunks_without_statistics")
        else:
            there = data.read_row_group(at[0]).column(at[1])
            n = len(there) - there.null_count
            mon.eq(rec["num_values"], n, "values of a record", at=at)
            mon.eq(rec["null_count"], stats.null_count, "missing values")
            mon.eq(rec["has_min_max"], stats.has_min_max, "has_min_max")
            if stats.has_min_max:
                for key in ("min", "max"):
                    mon.eq(plain(rec[key]), plain(getattr(stats, key)),
                           f"{key} of a record", at=at)
            mon.ev("chunks_with_statistics")
        counts[at] = rec["num_values"]
    # --- frames
    names = [table.column_names[c] for c in range(ncol)]
    extended = rng.random() < 0.5
    arg = rng.choice([lambda: {"extended": extended},
                      lambda: {} if not extended else {"extended": True}])()
    given = mosaic.parquet_metadata_records(path)
    kept = repr(given)
    by_record = mosaic.meta_record_df(given, **arg)
    mon.check(repr(given) == kept, "records modified")
    by_column = mosaic.meta_column_df(path, **arg)
    mon.check(isinstance(by_record, pd.DataFrame), "a frame")
    mon.eq(list(by_record["column"]), names, "entries in file order",
           groups=ngroup)
    mon.eq(list(by_column.columns), names, "columns of the column-wise frame")
    if not extended:
        mon.eq(list(by_record.columns), BRIEF, "fields of the brief frame")
        mon.eq(list(by_column.index), BRIEF, "fields by column")
    else:
        mon.check(set(BRIEF) <= set(by_record.columns) and
                  set(BRIEF) <= set(by_column.index) and
                  len(by_record.columns) > len(BRIEF),
                  "fields of the extended frame",
                  got=list(by_record.columns))
        mon.check(by_record.columns.is_unique and by_column.index.is_unique,
                  "a field twice", got=list(by_record.columns))
    for c in range(ncol):
        mine = [chunks[g, c] for g in range(ngroup)]
        want = {
            "comp_size": sum(x.total_compressed_size for x in mine),
            "uncomp_size": sum(x.total_uncompressed_size for x in mine),
            "num_values": sum(counts[g, c] for g in range(ngroup)),
            "col_ix": c, "column": names[c],
        }
        for key, attr in (("type", "physical_type"),
                          ("compression", "compression"),
                          ("dict_page", "has_dictionary_page"),
                          ("encodings", "encodings")):
            values = {getattr(x, attr) for x in mine}
            if len(values) == 1:
                want[key] = values.pop()
        if extended:
            nulls = {x.statistics.null_count if x.statistics else None
                     for x in mine}
            if len(nulls) == 1 and None not in nulls:
                want["null_count"] = nulls.pop()
        for key, value in want.items():
            for how, got in (
                ("record-wise", by_record[key].iloc[c]),
                ("column-wise", by_column.iloc[
                    list(by_column.index).index(key), c]),
            ):
                if key == "encodings":
                    got, value = tuple(sorted(got)), tuple(sorted(value))
                mon.eq(plain(got), plain(value), f"{key} ({how})",
                       column=names[c], groups=ngroup, extended=extended)
        mon.ev("entries")
    if ngroup > 1:
        varied(mon, rng, records, extended)
    mon.check(Path(path).read_bytes() == before, "file modified")
    mon.ev("several_groups", ngroup > 1)
    mon.sig("meta", ncol, ngroup, len(table), extended,
            tuple(map(str, table.schema.types)))
    mon.sample(f"{ncol} columns {ngroup} groups extended={extended}")


CHECK = Check(
    "C24",
    [
        Workload(w_metadata, 1500, 25000,
                 {"entries": 1500, "several_groups": 150,
                  "chunks_with_statistics": 3000,
                  "chunks_without_statistics": 300,
                  "fields_varying_between_groups": 100}),
        Workload(w_groupless, 20, 200, {"groupless_files": 20}),
    ],
    rule="a case is one flat parquet file of random types, row groups and "
         "writer options whose every metadata record and frame entry is "
         "compared with pyarrow's view of the file; distinct = distinct "
         "(types, row groups, rows, form)",
    assumptions=["column names are distinct"],
)
