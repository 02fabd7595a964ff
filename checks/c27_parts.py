"""C27: each part of the library works with just the packages it needs"""
import json
import os
import subprocess
import sys

from vmon import shmtrace
from vmon.core import VERIF, Check, Inconclusive, Workload

MODULES = ("mosaic", "pivot", "func", "structures", "dynamic", "tracker",
           "composition", "scrape", "codex.implements", "codex.codecs",
           "codex.memutilz")
EXTRAS = ("numpy", "pandas", "pyarrow")
CHILD = str(VERIF / "vmon" / "slim_child.py")


def run_child(mon, plan):
    env = {k: v for k, v in os.environ.items() if not k.startswith("PYTHON")}
    try:
        done = subprocess.run(
            [sys.executable, CHILD, json.dumps(plan)], env=env, text=True,
            capture_output=True, timeout=300)
    except subprocess.TimeoutExpired:
        raise Inconclusive(f"child did not finish: {plan}")
    lines = done.stdout.splitlines()
    try:
        out = json.loads(lines[-1])
    except (IndexError, ValueError):
        mon.fail("an interpreter with some packages missing died", plan=plan,
                 status=done.returncode, err=done.stderr[-1500:])
    mon.eq(out["problems"], [], "problems with some packages missing",
           plan=plan)
    mon.check(done.returncode == 0 and len(lines) == 1,
              "unexpected output or exit status", plan=plan,
              status=done.returncode, out=done.stdout[:500])
    mon.eq(done.stderr, "", "complaints", plan=plan)
    for k, n in out["events"].items():
        mon.ev(k, n)


def w_parts(mon, rng):
    """some modules, in some order, with some packages missing"""
    have = list(EXTRAS[:rng.choice([0, 0, 0, 0, 1, 1, 2, 2, 3])])
    order = rng.sample(MODULES, len(MODULES))
    prefix = shmtrace.fresh(rng)
    plan = {"prefix": prefix, "have": have, "order": order,
            "seed": rng.random(), "untrack": True}
    try:
        run_child(mon, plan)
        if "numpy" in have:
            mon.eq(shmtrace.live(prefix), set(), "blocks left")
    finally:
        shmtrace.sweep(prefix)
    mon.sig(have, order)
    mon.sample(f"with {have}: {order}")


def w_alone(mon, rng):
    """each module on its own, without anything optional it does not need"""
    for name in MODULES:
        have = {"pivot": EXTRAS[:2], "mosaic": EXTRAS}.get(name, ())
        prefix = shmtrace.fresh(rng)
        plan = {"prefix": prefix, "have": list(have), "order": [name],
                "seed": rng.random(), "untrack": name.startswith("codex")}
        try:
            run_child(mon, plan)
        finally:
            shmtrace.sweep(prefix)
        mon.ev("modules_alone")
        mon.sig("alone", name)


CHECK = Check(
    "C27",
    [
        Workload(w_parts, 48, 1200,
                 {"imports_done": 300, "imports_refused": 20,
                  "imports_denied": 60, "parts_used": 300,
                  "parts_refused": 30, "results_compared": 800,
                  "states_compared": 400}, wall=300),
        Workload(w_alone, 2, 20, {"modules_alone": 22}, wall=600),
    ],
    rule="a case is a fresh interpreter in which only some of the optional "
         "packages exist, that imports the modules in a random order under "
         "an audit hook, comparing process-wide state before and after each "
         "import, and then uses each of them; distinct = distinct (packages, "
         "order)",
    assumptions=["the side effects of other packages when first loaded are "
                 "theirs: those that exist are loaded beforehand"],
)
