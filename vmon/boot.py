"""
load third-party modules, then the code under test from /repo's working tree
(always compiled from source: no cached bytecode is trusted or written).
"""
import os
import sys
import time

REAL_SLEEP = time.sleep


def boot():
    # PYTHONHASHSEED must be fixed for reproducible cases
    if os.environ.get("PYTHONHASHSEED") != "0":
        os.environ["PYTHONHASHSEED"] = "0"
        os.execv(sys.executable, [sys.executable] + sys.argv)
    import cytoolz, more_itertools, numpy, pandas  # noqa
    import pyarrow, pyarrow.compute, pyarrow.parquet  # noqa
    import multiprocessing.pool, multiprocessing.shared_memory  # noqa
    sys.pycache_prefix = "/nonexistent/vmon"
    sys.dont_write_bytecode = True
    sys.path.insert(0, "/repo")
    # threads under vmon.sched see time.sleep as a scheduling point
    from vmon import sched
    time.sleep = sched.sleep
    import dustgoggles
    assert dustgoggles.__file__.startswith("/repo/"), dustgoggles.__file__


def import_all():
    import importlib
    return {
        name: importlib.import_module(f"dustgoggles.{name}")
        for name in (
            "codex.codecs", "codex.memutilz", "codex.implements",
            "composition", "dynamic", "func", "mosaic", "pivot", "scrape",
            "structures", "tracker",
        )
    }
