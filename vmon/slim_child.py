"""
one interpreter with some packages missing: imports modules in a given order,
watching for side effects, and uses what should work with what is there.
prints one JSON object as its last line.
"""
import builtins
import json
import os
import random
import signal
import sys
import threading

sys.dont_write_bytecode = True
sys.pycache_prefix = "/nonexistent/vmon"
sys.path.insert(0, "/repo")

ALWAYS = {"cytoolz", "toolz", "more_itertools", "dustgoggles"}
OWN = {"numpy": {"numpy"},
       "pandas": {"pandas", "dateutil", "six", "pytz", "tzdata"},
       "pyarrow": {"pyarrow"}}
NEEDS = {"pivot": {"numpy", "pandas"},
         "mosaic": {"numpy", "pandas", "pyarrow"}}
EVENTS, PROBLEMS = {}, []


def ev(name):
    EVENTS[name] = EVENTS.get(name, 0) + 1


class Missing:
    """finder that knows the installed packages only"""

    def __init__(self, have):
        self.allowed = ALWAYS.union(*(OWN[h] for h in have))

    def find_spec(self, name, path=None, target=None):
        top = name.partition(".")[0]
        if (top not in self.allowed and top not in sys.stdlib_module_names
                and not top.startswith("_sysconfigdata")):
            ev("imports_denied")
            raise ModuleNotFoundError(f"No module named {name!r}", name=name)
        return None


def bad(text):
    PROBLEMS.append(text)


def expect(got, want, what):
    ev("results_compared")
    if got != want or type(got) is not type(want):
        bad(f"{what}: {got!r} instead of {want!r}")


LOUD = {"os.mkdir", "os.remove", "os.rename", "os.rmdir", "os.symlink",
        "os.link", "os.truncate", "os.chdir", "os.putenv", "os.unsetenv",
        "os.fork", "os.posix_spawn", "os.system", "subprocess.Popen",
        "socket.connect", "socket.bind", "shutil.rmtree", "tempfile.mkstemp",
        "tempfile.mkdtemp", "_thread.start_new_thread", "signal.pthread_kill",
        "os.kill", "webbrowser.open", "urllib.Request"}
WATCH = [None]


def audit(event, args):
    if WATCH[0] is None:
        return
    if event == "open":
        _path, mode, flags = args
        if isinstance(flags, int) and flags & (
            os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND
        ):
            bad(f"importing {WATCH[0]} opened {args!r}")
    elif event in LOUD:
        bad(f"importing {WATCH[0]}: {event} {args!r}")


def watch_shm():
    import _posixshmem
    real = _posixshmem.shm_open

    def shm_open(*args, **kwargs):
        if WATCH[0] is not None:
            bad(f"importing {WATCH[0]} opened shared memory {args!r}")
        return real(*args, **kwargs)
    _posixshmem.shm_open = shm_open


def state():
    import gc
    import locale
    import logging
    import multiprocessing
    import socket
    import warnings
    from multiprocessing import context, resource_tracker as t
    root = logging.getLogger()
    out = {
        "working directory": os.getcwd(),
        "files": sorted(os.listdir(".")),
        "environment": dict(os.environ),
        "random state": random.getstate(),
        "signal handlers": [signal.getsignal(s) for s in (
            signal.SIGINT, signal.SIGTERM, signal.SIGHUP, signal.SIGPIPE,
            signal.SIGCHLD, signal.SIGALRM)],
        "threads": threading.active_count(),
        "search path": list(sys.path),
        "builtins": sorted(dir(builtins)),
        "hooks": (sys.excepthook, sys.displayhook, sys.gettrace(),
                  sys.getprofile(), builtins.open, builtins.print),
        "streams": (sys.stdout, sys.stderr, sys.stdin),
        "recursion limit": sys.getrecursionlimit(),
        "umask": umask(),
        "start method of processes": (
            context._default_context._actual_context,
            multiprocessing.get_all_start_methods()),
        "warning filters": (list(warnings.filters), warnings.showwarning),
        "logging": (list(root.handlers), root.level, logging.root.disabled,
                    logging.getLoggerClass()),
        "garbage collection": (gc.isenabled(), gc.get_threshold(),
                               gc.get_debug()),
        "locale": locale.setlocale(locale.LC_ALL),
        "socket timeout": socket.getdefaulttimeout(),
        "switch interval": sys.getswitchinterval(),
        "integer digits": sys.get_int_max_str_digits(),
        "import hooks": (list(sys.meta_path), list(sys.path_hooks)),
        "resource tracking": (t.register, t.unregister, t.ensure_running,
                              dict(t._CLEANUP_FUNCS), t._resource_tracker._fd),
    }
    if "numpy" in sys.modules:
        import numpy
        out["numpy settings"] = (numpy.geterr(), numpy.get_printoptions())
        out["numpy random state"] = repr(numpy.random.get_state())
    if "pandas" in sys.modules:
        import pandas
        out["pandas settings"] = [pandas.get_option(o) for o in (
            "display.max_rows", "display.max_columns", "display.width",
            "mode.string_storage", "display.precision")]
    return out


def umask():
    now = os.umask(0o22)
    os.umask(now)
    return now


def load(name, have):
    import importlib
    full = f"dustgoggles.{name}"
    usable = NEEDS.get(name, set()) <= set(have)
    before = state()
    WATCH[0] = full
    try:
        module = importlib.import_module(full)
    except ImportError as ex:
        module = None
        if usable:
            bad(f"{full} cannot be imported with {have}: {ex}")
        else:
            ev("imports_refused")
    else:
        if usable:
            ev("imports_done")
        else:
            # lazily imported: fine, as long as what needs it says so
            ev("imports_early")
    finally:
        WATCH[0] = None
    after = state()
    for k in before:
        if before[k] != after[k]:
            bad(f"importing {full} changed the {k}: {before[k]!r} to "
                f"{after[k]!r}"[:600])
    ev("states_compared")
    return module if usable else None


# --- what should work, per module (m: module, r: random, have: extras)

def use_func(m, r, have):
    n = r.randint(1, 30)
    it = m.naturals()
    expect([next(it) for _ in range(n)], list(range(1, n + 1)), "naturals")
    expect(m.constant(n)(1, a=2), n, "constant")
    expect(m.splat(max)([n, 3]), max(n, 3), "splat")
    expect(m.intersection([1, 2, n + 5], [2, n + 5]), {2, n + 5},
           "intersection")
    expect(m.gmap(str, range(n)), tuple(str(i) for i in range(n)), "gmap")
    expect(m.optionalize(int)("x"), None, "optional function")


def use_structures(m, r, have):
    k, v = r.choice("abc"), r.randint(0, 99)
    nest = m.NestingDict()
    nest["x"]["y"][k] = v
    expect(nest.todict(), {"x": {"y": {k: v}}}, "nested dict")
    expect(m.dig_for_value({"q": {k: v}}, k), v, "dig_for_value")
    expect(dict(m.unnest({"q": {k: v}})), {f"q_{k}": v}, "unnest")
    expect(m.rmerge({"z": {"b": 1}}, {"z": {k + "_": v}}),
           {"z": {"b": 1, k + "_": v}}, "rmerge")
    pool = m.MaybePool(r.choice([None, 2]))
    pool.map(divmod, [{"args": (i + v, 7)} for i in range(3)])
    pool.close()
    pool.join()
    expect(dict(pool.get()), {i: divmod(i + v, 7) for i in range(3)},
           "pool results")
    pool.terminate()


def use_dynamic(m, r, have):
    n = r.randint(1, 99)
    d = m.Dynamic(f"def f(x):\n    return x + {n}", {})
    expect(d(1), 1 + n, "dynamic function")
    d = m.Dynamic.from_function(state)
    expect(d()["threads"], state()["threads"], "function made dynamic")
    expect(m.digsource(use_func).startswith("def use_func(m, r, have)"),
           True, "source dug out")


def use_composition(m, r, have):
    n = r.randint(1, 99)
    c = m.Composition({"a": abs, "b": float, "c": str})
    c.add_captures()
    expect(c.execute(-n), str(float(n)), "composition")
    expect(c.captures["a"], [n], "capture")


def use_tracker(m, r, have):
    from pathlib import Path
    t = m.Tracker("slim", outdir=Path("slim_logs"))
    t.clear()
    t.track(use_func, n=r.randint(1, 9))
    t.dump()
    expect(len(t.history), 1, "history")
    with open(t.outpath) as f:
        expect(len(json.load(f)), 1, "dumped histories")


def use_scrape(m, r, have):
    n = r.randint(1, 99)
    text = f"KEY = {n}\nSUBFRAME\nA = 1\nB = {n}\nEND"
    expect(m.make_scraper(text)(r"KEY = (\d+)"), n, "scraped")
    expect(m.scrape_subframe(text), (1, n), "subframe")
    with open("slim.lbl", "w") as f:
        f.write(text)
    expect(m.scrape_patterns("slim.lbl", {"k": r"KEY = (\d+)"}), {"k": n},
           "patterns")


def use_codecs(m, r, have):
    v = {"a": [r.randint(1, 99), "\u00fc", None]}
    for factory in (m.json_codec_factory, m.pickle_codec_factory,
                    m.ast_codec_factory):
        encode, decode = factory()
        expect(decode(encode(v)), v, "codec")
    try:
        m.numpy_mnemonic_factory()
        ev("parts_used")
        if "numpy" not in have:
            bad("array functions were made without numpy")
    except ImportError as ex:
        ev("parts_refused")
        if "numpy" in have:
            bad(f"no array functions: {ex}")


def use_memutilz(m, r, have):
    a = f"{PREFIX}m"
    block = m.open_block(a, 4)
    block.buf[:] = b"slim"
    expect(m.fetch_block_bytes(a), b"slim", "bytes of a block")
    block.close()
    m.delete_block(a)
    expect(m.exists_block(a), False, "deleted block exists")


def use_implements(m, r, have):
    v = r.randint(1, 99)
    pad = m.Notepad(f"{PREFIX}n", create=True)
    pad["k"] = {"v": v}
    expect(m.Notepad(f"{PREFIX}n")["k"], {"v": v}, "value of a notepad")
    expect(list(pad.keys()), ["k"], "keys of a notepad")
    pad.close()
    index = m.MetaTagIndex(f"{PREFIX}i", create=True)
    index.add("k", [v])
    expect(index.items(), [("k", [v])], "items of an index")
    index.close()
    note = m.Sticky.note([v], f"{PREFIX}s")
    expect(m.Sticky(f"{PREFIX}s").read(), [v], "sticky")
    note.close()
    lock = m.SlidingLock(f"{PREFIX}l")
    with lock:
        pass
    lock.close()
    try:
        paper = m.GridPaper(f"{PREFIX}g", create=True)
        if "numpy" not in have:
            bad("a grid paper was made without numpy")
            return
    except ImportError as ex:
        ev("parts_refused")
        if "numpy" in have:
            bad(f"no grid paper: {ex}")
        return
    import numpy as np
    paper["a"] = np.arange(v)
    expect(paper["a"].tolist(), list(range(v)), "array of a grid paper")
    paper.close()


def use_pivot(m, r, have):
    import numpy as np
    import pandas as pd
    n = r.randint(2, 9)
    df = pd.DataFrame({"c": [1] * n, "v": np.arange(n) * 1.0,
                       "t": [f"x{i}" for i in range(n)]})
    constants, rest = m.extract_constants(df)
    expect({k: int(v) for k, v in dict(constants).items()}, {"c": 1},
           "constants")
    expect(list(rest.columns), ["c", "v", "t"], "columns")
    expect(m.downcast_df(df)["v"].tolist(), [float(i) for i in range(n)],
           "downcast")
    expect(m.numeric_columns(df).columns.tolist(), ["c", "v"],
           "numeric columns")
    expect(m.junction(df, df.iloc[1:], ["t"]), {("x0",)}, "junction")
    expect(float(m.smash(df, ["t"])["x1_v"]), 1.0, "smashed")


def use_mosaic(m, r, have):
    import pyarrow as pa
    from pyarrow import parquet
    n = r.randint(3, 30)
    values = [r.randint(0, 9) for _ in range(n)]
    parquet.write_table(pa.table({"s": values, "i": list(range(n))}),
                        "slim_in.parquet", row_group_size=5)
    m.sort_chunked("slim_in.parquet", "slim_out.parquet", "s", n_chunks=3,
                   verbose=False)
    expect(parquet.read_table("slim_out.parquet")["s"].to_pylist(),
           sorted(values), "sorted column")
    df = m.meta_record_df(m.parquet_metadata_records("slim_in.parquet"))
    expect(df["column"].tolist(), ["s", "i"], "columns of the metadata")


def main():
    global PREFIX
    plan = json.loads(sys.argv[1])
    PREFIX, have = plan["prefix"], plan["have"]
    r = random.Random(plan["seed"])
    # third-party and standard modules may do as they like when first loaded
    import multiprocessing.pool  # noqa
    import multiprocessing.shared_memory  # noqa
    import cytoolz  # noqa
    import more_itertools  # noqa
    sys.meta_path.insert(0, Missing(have))
    for extra in have:
        __import__(extra)
        if extra == "pyarrow":
            import pyarrow.compute  # noqa
            import pyarrow.parquet  # noqa
    sys.addaudithook(audit)
    watch_shm()
    modules = {}
    for name in plan["order"]:
        modules[name] = load(name, have)
    if plan["untrack"]:
        import dustgoggles.codex.memutilz as u
        u.deactivate_shared_memory_resource_tracker()
    for name in r.sample(plan["order"], len(plan["order"])):
        if modules[name] is None:
            continue
        use = globals()["use_" + name.rpartition(".")[2]]
        try:
            use(modules[name], r, have)
            ev("parts_used")
        except Exception as ex:
            import traceback
            bad(f"using {name} with {have}: {type(ex).__name__}: {ex}: "
                + traceback.format_exc()[-900:])
    print(json.dumps({"events": EVENTS, "problems": PROBLEMS}))


if __name__ == "__main__":
    main()
