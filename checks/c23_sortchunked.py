"""C23: chunked parquet sorts and bounded reads vs the rows of the input"""
import contextlib
import io
import math
from collections import Counter
from decimal import Decimal
from pathlib import Path

import numpy as np
import pyarrow as pa
from pyarrow import parquet

from dustgoggles import mosaic
from vmon import gen
from vmon.core import Check, Workload

INTS = ["int8", "uint8", "int16", "uint16", "int32", "uint32", "int64",
        "uint64"]


def sort_values(rng, n, missing=True):
    """values of a sort column, None and NaN among them, and their type"""
    if rng.random() < 0.5:
        typ = rng.choice(INTS)
        info = np.iinfo(typ)
        lo, hi = max(info.min, -2**53), min(info.max, 2**53)
        style = rng.randrange(5)
        vals = []
        for _ in range(n):
            if style == 0:
                v = rng.randint(0, 5)
            elif style == 1:
                v = rng.choice([lo, hi, 0])
            elif style == 2:
                v = rng.randint(lo, hi)
            elif style == 3:
                v = 7
            else:
                v = hi - rng.randint(0, 20)
            vals.append(min(max(v, lo), hi))
    else:
        typ = rng.choice(["float32", "float64", "float64"])
        style = rng.randrange(7)
        scale = 10.0 ** rng.randint(-300, 299)
        vals = []
        for _ in range(n):
            v = [lambda: rng.uniform(-100, 100),
                 lambda: rng.uniform(-1, 1) * scale,
                 lambda: rng.choice([0.0, -0.0, 5e-324, -5e-324]),
                 lambda: rng.choice([1e300, -1e300, 0.0]),
                 lambda: 0.1 + rng.randint(0, 4) * 2**-54,
                 lambda: float(rng.randint(0, 9)),
                 lambda: 2.5][style]()
            if typ == "float32":
                v = min(max(v, -3e38), 3e38)
            vals.append(float(np.float32(v)) if typ == "float32" else v)
    if missing and rng.random() < 0.3:
        share = rng.choice([0.1, 0.5, 1.0])
        bad = [None] if typ in INTS or rng.random() < 0.4 else [
            None, math.nan]
        vals = [rng.choice(bad) if rng.random() < share else v for v in vals]
    return vals, typ


def extra(rng, n, name):
    kind = rng.randrange(10)
    if kind == 9:
        # (needs the latest format)
        return pa.array([rng.choice([0, 1, 10**9 + 1, None])
                         for _ in range(n)], pa.timestamp("ns"))
    if kind == 0:
        return pa.array([rng.choice(["a", "", None, "é" * 50])
                         for _ in range(n)], pa.string())
    if kind == 1:
        return pa.array([rng.choice([1.5, None, math.nan, math.inf])
                         for _ in range(n)], pa.float64())
    if kind == 2:
        return pa.array([[rng.randint(0, 9)] * rng.randint(0, 3)
                         for _ in range(n)], pa.list_(pa.int32()))
    if kind == 3:
        return pa.array([{"x": rng.randint(0, 9), "y": "z"}
                         for _ in range(n)],
                        pa.struct([("x", pa.int8()), ("y", pa.string())]))
    if kind == 4:
        return pa.array([rng.choice(["u", "v", None]) for _ in range(n)],
                        pa.string()).dictionary_encode()
    if kind == 5:
        return pa.array([rng.choice([0, 10**9, None]) for _ in range(n)],
                        pa.timestamp("us"))
    if kind == 6:
        return pa.array([rng.random() < 0.5 for _ in range(n)])
    if kind == 7:
        return pa.array([rng.randbytes(rng.randint(0, 4)) for _ in range(n)],
                        pa.binary())
    return pa.array([Decimal(rng.randint(-999, 999)) / 100
                     for _ in range(n)], pa.decimal128(9, 2))


def write(rng, path, table, bare=False):
    """with a random row-group layout, empty row groups included"""
    n = len(table)
    style = rng.randrange(5)
    opts = {"write_statistics": False} if bare else {}
    if rng.random() < 0.3:
        opts["use_dictionary"] = rng.random() < 0.5
    if rng.random() < 0.3:
        opts["compression"] = rng.choice(["none", "gzip", "zstd", "snappy"])
    if rng.random() < 0.2:
        opts["data_page_version"] = "2.0"
    if style == 0:
        parquet.write_table(table, path, **opts)
    elif style == 1:
        parquet.write_table(table, path, row_group_size=rng.choice(
            [1, 2, 3, 7, 50]), **opts)
    else:
        with parquet.ParquetWriter(path, table.schema, **opts) as writer:
            at = 0
            while at < n:
                size = rng.choice([0, 1, 2, 5, 20, n])
                if size or style == 4:
                    writer.write_table(table.slice(at, size))
                at += size
    return parquet.read_metadata(path).num_row_groups


def make(rng, n=None, missing=True):
    n = gen.size(rng, [0, 1, 2, 3, 10, 40, 40, 150], 0.02, (600, 2500)) \
        if n is None else n
    vals, typ = sort_values(rng, n, missing)
    name = rng.choice(["s", "a b", "é", "0", "s.t"])
    cols = {name: pa.array(vals, getattr(pa, typ)())}
    for i in range(rng.randint(0, 4)):
        cols[f"x{i}"] = extra(rng, n, f"x{i}")
    cols["row"] = pa.array(range(n), pa.int32())
    items = list(cols.items())
    rng.shuffle(items)
    table = pa.table(dict(items))
    if rng.random() < 0.3:
        table = table.replace_schema_metadata({"about": "a file"})
    return table, name, vals, typ


def rows(table):
    cols = [table.column(c).to_pylist() for c in table.column_names]
    return [repr(r) for r in zip(*cols)]


def missing(v):
    return v is None or v != v


def processor(rng, table, name):
    """(processor, the table of every row processed, the schema given)"""
    kind = rng.randrange(6)
    calls = []

    def counted(f):
        def process(t):
            calls.append(len(t))
            return f(t)
        return process
    if kind == 0:
        f = counted(lambda t: t)
    elif kind == 1:
        def f(t):
            return t.append_column("twice", pa.array(
                [2 * r for r in t["row"].to_pylist()], pa.int64()))
        f = counted(f)
    elif kind == 2:
        keep = [c for c in table.column_names if c in (name, "row")]
        f = counted(lambda t: t.select(keep))
    elif kind == 4:
        f = counted(lambda t: t.select([name]))
    elif kind == 5:
        wide = pa.int64() if pa.types.is_integer(
            table[name].type) else pa.float64()
        j = table.column_names.index(name)
        f = counted(lambda t: t.set_column(j, name, t[name].cast(wide)))
    else:
        at = table.column_names.index("row")
        f = counted(lambda t: t.set_column(
            at, "row", t["row"].cast(pa.int64())))
    want = f(table)
    calls.clear()
    return f, want, want.schema, calls


def w_sort(mon, rng):
    table, name, vals, typ = make(rng)
    src, dst = Path("in.parquet"), Path("out.parquet")
    groups = write(rng, src, table)
    before = src.read_bytes()
    if rng.random() < 0.2:
        dst.write_bytes(b"something older")
    opts, want, calls = {}, table, None
    if rng.random() < 0.4:
        f, want, schema, calls = processor(rng, table, name)
        opts = {"inline_processor": f, "schema": schema}
    elif rng.random() < 0.3:
        opts["schema"] = table.schema
    down = rng.random() < 0.45
    if down or rng.random() < 0.3:
        opts["direction"] = "descending" if down else "ascending"
    if rng.random() < 0.7:
        opts["n_chunks"] = rng.choice([2, 2, 2, 3, 3, 4, 9, 9, 25, 25, 64,
                                        100, 130, 270])
    if rng.random() < 0.4:
        opts["row_group_size"] = rng.choice([1, 3, 10, 1000])
    if rng.random() < 0.3:
        opts["use_dictionary"] = rng.choice([True, False, ["row"]])
    if rng.random() < 0.15 and not any(
            t in (pa.timestamp("ns"), pa.uint32())
            for t in table.schema.types):
        opts["version"] = rng.choice(["1.0", "2.4", "2.6"])
    quiet = rng.random() < 0.7
    if quiet:
        opts["verbose"] = False
    said = io.StringIO()
    give = rng.choice([str, Path])
    with contextlib.redirect_stdout(said):
        mosaic.sort_chunked(give(src), give(dst), name, **opts)
    info = dict(typ=typ, vals=vals[:40], groups=groups, opts=opts)
    mon.check(src.read_bytes() == before, "input file modified")
    mon.check(not quiet or said.getvalue() == "", "printed while quiet",
              said=said.getvalue())
    out = parquet.read_table(dst)
    mon.check(out.schema.equals(want.schema, check_metadata=False), "schema",
              got=out.schema, want=want.schema)
    mon.eq(out.num_rows, want.num_rows, "number of rows", **info)
    mon.check(Counter(rows(out)) == Counter(rows(want)),
              "rows of the output are not those of the input",
              extra=list((Counter(rows(out)) - Counter(rows(want)))
                         .elements())[:5],
              lost=list((Counter(rows(want)) - Counter(rows(out)))
                        .elements())[:5], **info)
    order = out[name].to_pylist()
    there = [v for v in order if not missing(v)]
    mon.check(all(missing(v) for v in order[len(there):]),
              "missing values are not last", order=order[:40], **info)
    mon.check(there == sorted(there, reverse=down), "not in order",
              order=order[:40], **info)
    meta = parquet.read_metadata(dst)
    if "version" in opts:
        mon.check((meta.format_version == "1.0") == (opts["version"] == "1.0"),
                  "format version", got=meta.format_version, **info)
    chunks = [meta.row_group(i).column(j)
              for i in range(meta.num_row_groups)
              for j in range(meta.num_columns)]
    coded = {c.path_in_schema for c in chunks if c.has_dictionary_page}
    if "use_dictionary" in opts:
        use = opts["use_dictionary"]
        may = set(use) if isinstance(use, list) else coded if use else set()
        must = {"row"} if use is not False and len(out) and \
            "row" in out.column_names else set()
        mon.check(must <= coded <= may, "dictionary encoding", got=coded,
                  **info)
    if opts.get("row_group_size") is not None and len(out):
        mon.check(max(meta.row_group(i).num_rows
                      for i in range(meta.num_row_groups)) <=
                  opts["row_group_size"], "row-group size", **info)
    if calls is not None:
        mon.check(sum(calls) == len(table), "rows given to the processor",
                  calls=calls, n=len(table))
        mon.ev("chunks_processed", len(calls))
    mon.ev("rows_sorted", len(table))
    mon.ev("several_row_groups", groups > 1)
    mon.ev("descending", down)
    mon.ev("missing_rows", len(order) - len(there))
    mon.sig("sort", typ, len(table), groups, down, opts.get("n_chunks"),
            len(set(map(repr, vals))))
    mon.sample(f"{typ} {len(table)} rows {groups} groups {opts}")


def bound(rng, vals):
    there = [v for v in vals if not missing(v)]
    if there and rng.random() < 0.6:
        v = rng.choice(there)
        return v + rng.choice([0, 0, 0, 1, -1]) if isinstance(v, int) else \
            rng.choice([v, np.nextafter(v, np.inf), np.nextafter(v, -np.inf)])
    return rng.choice([0, 1, -1, 0.5, 1e9, -1e9, 3, 10])


def w_between(mon, rng):
    table, name, vals, typ = make(rng)
    src = Path("in.parquet")
    # (then nothing is known of a row group)
    bare = rng.random() < 0.1
    groups = write(rng, src, table, bare)
    before = src.read_bytes()
    for _ in range(4):
        lo, hi = bound(rng, vals), bound(rng, vals)
        if lo > hi and rng.random() < 0.8:
            lo, hi = hi, lo
        if typ in INTS and not all(isinstance(b, int) and np.iinfo(
                typ).min <= b <= np.iinfo(typ).max for b in (lo, hi)):
            lo, hi = float(lo), float(hi)
        opts = {}
        if rng.random() < 0.5:
            opts["columns"] = rng.sample(
                table.column_names,
                rng.randint(0 if rng.random() < 0.3 else 1,
                            table.num_columns))
        quiet = rng.random() < 0.7
        if quiet:
            opts["verbose"] = False
        records = [r for r in mosaic.parquet_metadata_records(src)
                   if r["path_in_schema"] == name]
        said = io.StringIO()
        with contextlib.redirect_stdout(said), parquet.ParquetFile(
                src) as reader:
            got = mosaic.read_between(reader, name, (lo, hi), records, **opts)
        mon.check(not quiet or said.getvalue() == "", "printed while quiet")
        mask = [not missing(v) and lo <= v < hi for v in vals]
        want = table.filter(pa.array(mask, pa.bool_()))
        if "columns" in opts:
            want = want.select(opts["columns"])
        info = dict(bounds=(lo, hi), vals=vals[:40], typ=typ, opts=opts,
                    groups=groups)
        if got is None:
            mon.check(len(want) == 0, "nothing read", want=rows(want), **info)
            mon.ev("nothing_read")
        else:
            can = any(r.get("min") is None or
                      r["min"] <= hi and r["max"] >= lo for r in records)
            mon.check(can, "a table although no row group can have the "
                      "values", **info)
            mon.eq(got.column_names, want.column_names, "columns", **info)
            mon.check(Counter(rows(got)) == Counter(rows(want)),
                      "rows between bounds", got=rows(got)[:20],
                      want=rows(want)[:20], **info)
            mon.ev("rows_between", len(got))
            mon.ev("without_statistics", bare)
        mon.sig("between", typ, groups, got is None, len(want),
                len(opts.get("columns", ())))
    mon.check(src.read_bytes() == before, "input file modified")


def sorted_rows(table, name):
    src, dst = "in.parquet", "out.parquet"
    parquet.write_table(table, src, row_group_size=4)
    mosaic.sort_chunked(src, dst, name, verbose=False)
    out = parquet.read_table(dst)
    order = out[name].to_pylist()
    return Counter(rows(out)) == Counter(rows(table)) and order == sorted(
        order)


def w_findings(mon, rng):
    n = rng.randint(3, 12)
    vals = [rng.choice([1.0, -3.5, 8.25]) for _ in range(n)]
    vals[rng.randrange(n)] = rng.choice([math.inf, -math.inf])
    with np.errstate(all="ignore"):
        try:
            held = sorted_rows(pa.table({"s": vals, "row": range(n)}), "s")
        except Exception:
            held = False
    if not held:
        mon.finding("infinite-keys", "sort_chunked loses rows when the sort "
                    "column holds infinite values", vals=vals)
    vals = [rng.randint(0, 9) for _ in range(n)]
    vals[rng.randrange(n)] = 2**53 + rng.randint(1, 99)
    try:
        held = sorted_rows(pa.table({"s": vals, "row": range(n)}), "s")
    except pa.ArrowInvalid:
        held = False
    if not held:
        mon.finding("wide-integers", "sort_chunked raises ArrowInvalid when "
                    "the sort column holds integers beyond 2**53", vals=vals)


CHECK = Check(
    "C23",
    [
        Workload(w_sort, 1200, 40000,
                 {"rows_sorted": 15000, "several_row_groups": 200,
                  "descending": 200, "missing_rows": 500,
                  "chunks_processed": 500}),
        Workload(w_between, 700, 20000,
                 {"rows_between": 5000, "nothing_read": 100}),
        Workload(w_findings, 4, 50),
    ],
    rule="a case is one parquet file of random types, values and row-group "
         "layout, sorted or read between bounds, its output compared row by "
         "row with the input; distinct = distinct (type, sizes, row groups, "
         "options)",
    assumptions=["sort columns are integers within +-2**53 or finite floats "
                 "within +-1e300 of 4 or 8 bytes, or missing; beyond that "
                 "see the known findings", "two chunks or more"],
)
