"""C26: shared memory of processes that turned off resource tracking"""
import json
import os
import subprocess
import sys
import time
from pathlib import Path

from vmon import shmtrace
from vmon.core import Check, Inconclusive, Workload

CHILD = Path(__file__).resolve().parent.parent / "vmon" / "shm_child.py"
TEXTS = ["x", "hello", "0123456789" * 50, "é", "z" * 70000]
CODES = {"return": 0, "exit": 7, "raise": 1, "_exit": 7, "kill": -9}


def launch(plan):
    path = Path(f"plan{time.monotonic_ns()}.json")
    path.write_text(json.dumps(plan))
    env = {k: v for k, v in os.environ.items() if k != "PYTHONPATH"}
    env |= {"PYTHONPATH": "/repo", "PYTHONDONTWRITEBYTECODE": "1",
            "PYTHONPYCACHEPREFIX": "/nonexistent/vmon"}
    try:
        # a tracker process left running would hold on to the pipes
        done = subprocess.run(
            [sys.executable, str(CHILD), str(path)], env=env, text=True,
            capture_output=True, timeout=200)
    except subprocess.TimeoutExpired as ex:
        raise Inconclusive(f"script did not end: {ex}")
    finally:
        path.unlink()
    return done


def on_disk(name):
    return Path("/dev/shm") / name


def settled(condition, seconds=15):
    """trackers act after the exit of their process"""
    end = time.monotonic() + seconds
    while not condition() and time.monotonic() < end:
        time.sleep(0.02)
    return condition()


class Planner:
    """random operations with a model of which blocks hold what"""

    def __init__(self, rng, prefix, blocks):
        self.rng, self.prefix, self.blocks = rng, prefix, blocks
        self.n, self.gone = len(blocks), []

    def fresh(self):
        self.n += 1
        return f"{self.prefix}b{self.n}"

    def op(self, depth):
        rng = self.rng
        alive = list(self.blocks)
        kind = rng.choice(
            ["create"] * 4 + ["attach"] * 4 + ["delete"] * 2 + ["exists"] +
            ["overwrite", "gc", "lock", "list", "deactivate"] +
            (["child"] * 2 + ["queue", "pool"] if rng.random() < 0.3 else []))
        ctx = rng.choice(["fork", "fork", "spawn"])
        if kind != "delete":
            # a shareable list has a layout of its own
            alive = [n for n in alive if self.blocks[n] is not None]
        if kind in ("attach", "delete", "overwrite") and not alive:
            kind = "create"
        if kind == "create":
            name = self.fresh()
            if self.gone and rng.random() < 0.3:
                name = rng.choice(self.gone)
                self.gone.remove(name)
            text = self.blocks[name] = rng.choice(TEXTS)
            return ["create", name, text, rng.choice(["open_block", "raw"]),
                    rng.random() < 0.4]
        if kind == "attach":
            name = rng.choice(alive)
            return ["attach", name, self.blocks[name],
                    rng.choice(["open_block", "raw", "fetch"]),
                    rng.random() < 0.4]
        if kind == "delete":
            name = rng.choice(alive)
            del self.blocks[name]
            self.gone.append(name)
            return ["delete", name, rng.choice(["delete_block", "raw"])]
        if kind == "exists":
            pool = list(self.blocks) + self.gone
            if not pool:
                return ["gc"]
            name = rng.choice(pool)
            return ["exists", name, name in self.blocks]
        if kind == "overwrite":
            name = rng.choice(alive)
            text = self.blocks[name] = rng.choice(TEXTS)
            return ["overwrite", name, text]
        if kind == "list":
            name = self.fresh()
            self.blocks[name] = None
            return ["list", name, [1, "a", 2.5]]
        if kind in ("lock", "queue", "pool"):
            return [kind, ctx]
        if kind == "child":
            if depth == 0:
                return ["gc"]
            ops = [] if ctx == "fork" and rng.random() < 0.5 else [
                ["deactivate"]]
            ops += self.ops(rng.randint(1, 4), depth - 1)
            return ["child", ctx, ops]
        return [kind]

    def ops(self, n, depth=1):
        return [self.op(depth) for _ in range(n)]


def flat(ops):
    for op in ops:
        yield op
        if op[0] == "child":
            yield from flat(op[2])


def judge(mon, done, plan, planner, leaks=()):
    info = dict(plan=plan, out=done.stdout[-800:], err=done.stderr[-1500:])
    said = done.stdout.splitlines()
    wrong = [line for line in said if line.startswith("BAD")]
    mon.check(not wrong, "an operation went wrong", wrong=wrong[:3], **info)
    mon.check("DONE" in said, "the operations did not finish", **info)
    mon.check(done.returncode == CODES[plan["exit"]], "exit status",
              got=done.returncode, **info)
    # --- complaints
    err = done.stderr
    if plan["exit"] == "raise":
        lines = err.strip().splitlines()
        mon.check(lines and "RuntimeError: planned" in err, "planned error",
                  **info)
        head, _, tail = err.partition("RuntimeError: planned")
        mon.check("resource_tracker" not in err and tail.strip() == "", "complaints",
                  **info)
    elif leaks or plan["exit"] in ("_exit", "kill"):
        mon.check("shared_memory" not in err and "KeyError" not in err,
                  "complaints about blocks", **info)
    else:
        mon.check(err.strip() == "", "complaints", **info)
    # --- blocks
    prefix = planner.prefix
    time.sleep(0.05)
    left = shmtrace.live(prefix)
    mon.check(left == set(planner.blocks), "blocks after the exit",
              lost=sorted(set(planner.blocks) - left),
              extra=sorted(left - set(planner.blocks)), **info)
    for name, text in planner.blocks.items():
        if text is not None:
            data = on_disk(name).read_bytes()
            mon.check(data[:len(text.encode())] == text.encode(),
                      "contents of a block after the exit", name=name, **info)
            mon.ev("surviving_blocks")
    mon.ev("scripts")
    mon.ev("operations", sum(1 for _ in flat(plan["ops"])))
    for op in flat(plan["ops"]):
        mon.ev(f"op_{op[0]}")


def w_scripts(mon, rng):
    prefix = shmtrace.fresh(rng)
    blocks = {}
    try:
        for i in range(rng.randint(0, 2)):
            text = rng.choice(TEXTS)
            on_disk(f"{prefix}b{i}").write_bytes(text.encode())
            blocks[f"{prefix}b{i}"] = text
        planner = Planner(rng, prefix, blocks)
        planner.n = len(blocks) + 5
        for _ in range(rng.choice([1, 1, 2])):
            # processes one after the other, that know nothing of each other
            plan = {"ops": [["deactivate"]] + planner.ops(
                rng.randint(1, 9)), "exit": rng.choice(
                ["return", "return", "exit", "raise", "_exit", "kill"])}
            done = launch(plan)
            judge(mon, done, plan, planner)
            mon.sig("script", tuple(op[0] for op in flat(plan["ops"])),
                    plan["exit"], len(planner.blocks))
        mon.sample(json.dumps(plan)[:500])
    finally:
        shmtrace.sweep(prefix)


def w_child_only(mon, rng):
    """only a child of the process turns tracking off"""
    prefix = shmtrace.fresh(rng)
    try:
        planner = Planner(rng, prefix, {})
        ops = []
        for _ in range(rng.randint(1, 2)):
            ops.append(["child", rng.choice(["fork", "spawn"]),
                        [["deactivate"]] + planner.ops(rng.randint(1, 4), 0)])
        ops.append(rng.choice([["lock", "spawn"], ["untouched"],
                               ["queue", "fork"]]))
        plan = {"ops": ops, "exit": rng.choice(["return", "raise"])}
        judge(mon, launch(plan), plan, planner)
        mon.ev("children_only")
        mon.sig("child only", tuple(op[0] for op in flat(ops)))
    finally:
        shmtrace.sweep(prefix)


def w_others(mon, rng):
    """semaphores of a process that never releases them are still removed"""
    prefix = shmtrace.fresh(rng)
    planner = Planner(rng, prefix, {})
    names = []
    try:
        ops = [["deactivate"]] + planner.ops(rng.randint(0, 3), 0)
        for _ in range(rng.randint(1, 3)):
            ops.insert(rng.randint(1, len(ops)), ["leak"])
        # resources of another kind: reported iff they were not given up
        things = [rng.random() < 0.4 for _ in range(rng.randint(0, 3))]
        for i, keeps in enumerate(things):
            ops.insert(rng.randint(1, len(ops)),
                       ["thing", f"/{prefix}t{i}", keeps])
        plan = {"ops": ops, "exit": rng.choice(["_exit", "kill"])}
        done = launch(plan)
        names = [line.split()[1].lstrip("/")
                 for line in done.stdout.splitlines()
                 if line.startswith("LEAK")]
        mon.check(len(names) == sum(op[0] == "leak" for op in ops),
                  "semaphores made", out=done.stdout)
        judge(mon, done, plan, planner, leaks=names)
        left = [n for n in names if not settled(
            lambda n=n: not on_disk(f"sem.{n}").exists())]
        mon.check(not left, "semaphores of a process that is gone",
                  left=left, err=done.stderr[-500:])
        mon.ev("semaphores_removed", len(names))
        for i, keeps in enumerate(things):
            mon.check((f"/{prefix}t{i}" in done.stderr) is not keeps,
                      "report on another resource of a process that is gone",
                      given_up=keeps, err=done.stderr[-800:])
            mon.ev("things")
        mon.sig("others", tuple(op[0] for op in ops), plan["exit"])
    finally:
        shmtrace.sweep(prefix)
        for n in names:
            on_disk(f"sem.{n}").unlink(missing_ok=True)


def w_tracked(mon, rng):
    """without turning it off, tracking is as Python has it"""
    prefix = shmtrace.fresh(rng)
    try:
        text = rng.choice(TEXTS)
        given, made, deleted = (f"{prefix}{c}" for c in "gmd")
        on_disk(given).write_bytes(text.encode())
        ops = [
            ["use", f"{prefix}u"], ["untouched"],
            ["attach", given, text, rng.choice(["open_block", "raw",
                                                "fetch"]), False],
            ["create", made, text, rng.choice(["open_block", "raw"]),
             rng.random() < 0.5],
            ["create", deleted, text, "open_block", False],
            ["delete", deleted, rng.choice(["delete_block", "raw"])],
            ["lock", "spawn"], ["untouched"],
        ]
        plan = {"ops": ops, "exit": rng.choice(["return", "_exit"])}
        done = launch(plan)
        info = dict(out=done.stdout[-500:], err=done.stderr[-800:])
        wrong = [x for x in done.stdout.splitlines() if x.startswith("BAD")]
        mon.check(not wrong and "DONE" in done.stdout,
                  "an operation went wrong", wrong=wrong[:3], **info)
        mon.check(settled(lambda: not shmtrace.live(prefix)),
                  "tracked blocks are still there",
                  left=shmtrace.live(prefix), **info)
        mon.check("leaked shared_memory" in done.stderr,
                  "no report on leaked blocks", **info)
        mon.ev("tracked_scripts")
        mon.sig("tracked", text[:5], tuple(map(str, ops[2][3:])))
    finally:
        shmtrace.sweep(prefix)


CHECK = Check(
    "C26",
    [
        Workload(w_scripts, 130, 2500,
                 {"scripts": 130, "surviving_blocks": 130, "op_child": 10,
                  "op_lock": 20, "op_delete": 50}, wall=400),
        Workload(w_child_only, 24, 400, {"children_only": 24}, wall=400),
        Workload(w_others, 24, 400, {"semaphores_removed": 24, "things": 12},
                 wall=400),
        Workload(w_tracked, 16, 300, {"tracked_scripts": 16}, wall=400),
    ],
    rule="a case is one or two processes that turn tracking off and run "
         "random operations, after whose exit (return, error, kill) "
         "/dev/shm, stderr and the exit status are compared with the model; "
         "distinct = distinct (operations, exit)",
    assumptions=["Linux, and the Python of /opt/venv",
                 "blocks are made or attached after tracking is turned off"],
)
