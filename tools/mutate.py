"""
mutation sweep: python tools/mutate.py WORKDIR [--jobs N] [--only MODULE]

small syntactic changes of the code under test, one at a time and in scratch
copies, each run against the repository's tests and, if these pass, against
the checks whose runs execute the changed line.  Appends a line of JSON per
mutant to WORKDIR/results.jsonl; survivors are for reading.
"""
import argparse
import ast
import json
import os
import queue
import random
import shutil
import signal
import subprocess
import sys
import threading
import time
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
REPO = Path("/repo")
SKIP = ("tests/", "test_utils/", "_array_holding_area", "__init__")
NOBODY = 65534
CMP = {ast.Eq: "!=", ast.NotEq: "==", ast.Lt: "<=", ast.LtE: "<",
       ast.Gt: ">=", ast.GtE: ">", ast.Is: "is not", ast.IsNot: "is",
       ast.In: "not in", ast.NotIn: "in"}
BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "//", ast.FloorDiv: "*",
       ast.Div: "*", ast.BitOr: "&", ast.BitAnd: "|", ast.Pow: "*",
       ast.Mod: "+"}


class Text:
    def __init__(self, text):
        self.text = text
        self.data = text.encode()
        self.starts = [0]
        for line in self.data.split(b"\n"):
            self.starts.append(self.starts[-1] + len(line) + 1)

    def span(self, node):
        return (self.starts[node.lineno - 1] + node.col_offset,
                self.starts[node.end_lineno - 1] + node.end_col_offset)

    def src(self, node):
        a, b = self.span(node)
        return self.data[a:b].decode()

    def put(self, a, b, new):
        return (self.data[:a] + new.encode() + self.data[b:]).decode()


def mutants(text):
    """(line, description, new text)"""
    t = Text(text)
    tree = ast.parse(text)
    inside = set()
    for fn in ast.walk(tree):
        if isinstance(fn, (ast.FunctionDef, ast.Lambda)):
            for n in ast.walk(fn):
                inside.add(n)
    for fn in ast.walk(tree):  # annotations are no behaviour
        if isinstance(fn, ast.FunctionDef):
            anns = [a.annotation for a in ast.walk(fn.args)
                    if isinstance(a, ast.arg) and a.annotation]
            for a in anns + ([fn.returns] if fn.returns else []):
                inside -= set(ast.walk(a))
        if isinstance(fn, ast.AnnAssign):
            inside -= set(ast.walk(fn.annotation))
        if isinstance(fn, ast.Raise) and fn.exc is not None:
            # messages of exceptions are no promise
            for n in ast.walk(fn.exc):
                if isinstance(n, (ast.Constant, ast.JoinedStr, ast.BinOp)):
                    inside.discard(n)
        if isinstance(fn, ast.If) and "debug" in t.src(fn.test):
            inside -= set(ast.walk(fn))
        if isinstance(fn, ast.FunctionDef) and fn.name in (
                "__str__", "__repr__", "log", "here", "printstack"):
            inside -= set(ast.walk(fn))

    def rep(node, new, what=None):
        a, b = t.span(node)
        old = t.src(node)
        return (node.lineno, what or f"{old[:60]!r} -> {new[:60]!r}",
                t.put(a, b, new))

    for n in ast.walk(tree):
        if n not in inside:
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            op = CMP[type(n.ops[0])]
            yield rep(n, f"{t.src(n.left)} {op} {t.src(n.comparators[0])}")
        if isinstance(n, ast.BoolOp):
            word = " or " if isinstance(n.op, ast.And) else " and "
            yield rep(n, word.join(f"({t.src(v)})" for v in n.values))
            for i in range(len(n.values)):
                yield rep(n, f"({t.src(n.values[i])})")
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            yield rep(n, f"bool({t.src(n.operand)})")
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Invert):
            yield rep(n, t.src(n.operand))
        if isinstance(n, ast.BinOp) and type(n.op) in BIN:
            yield rep(n, f"{t.src(n.left)} {BIN[type(n.op)]} "
                         f"{t.src(n.right)}")
        if isinstance(n, ast.Constant):
            if n.value is True or n.value is False:
                yield rep(n, repr(not n.value))
            elif isinstance(n.value, int):
                yield rep(n, repr(n.value + 1))
                if n.value > 0:
                    yield rep(n, repr(n.value - 1))
            elif isinstance(n.value, float):
                yield rep(n, repr(n.value * 2))
        if isinstance(n, ast.IfExp):
            yield rep(n, f"({t.src(n.body)})")
            yield rep(n, f"({t.src(n.orelse)})")
        if isinstance(n, (ast.If, ast.While)):
            if not isinstance(n.test, (ast.Compare, ast.UnaryOp)):
                yield rep(n.test, f"not ({t.src(n.test)})")
            if isinstance(n, ast.If):
                yield rep(n.test, "False")
                yield rep(n.test, "True")
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
            yield rep(n, "pass")
        if isinstance(n, (ast.Assign, ast.AugAssign)):
            target = n.targets[0] if isinstance(n, ast.Assign) else n.target
            if not isinstance(target, ast.Name) or isinstance(
                    n, ast.AugAssign):
                yield rep(n, "pass")
            elif any(isinstance(m, ast.Name) and m.id == target.id
                     for m in ast.walk(n.value)):
                yield rep(n, "pass")
        if isinstance(n, ast.Raise):
            yield rep(n, "pass")
        if isinstance(n, ast.Delete):
            yield rep(n, "pass")
        if isinstance(n, ast.Return) and n.value is not None and not (
                isinstance(n.value, ast.Constant) and n.value.value is None):
            yield rep(n, "return None")
        if isinstance(n, ast.Break):
            yield rep(n, "continue")
            yield rep(n, "pass")
        if isinstance(n, ast.Continue):
            yield rep(n, "break")
            yield rep(n, "pass")
        if isinstance(n, ast.Slice):
            for part in ("lower", "upper"):
                e = getattr(n, part)
                if e is not None:
                    yield rep(e, f"({t.src(e)}) + 1")
        if isinstance(n, ast.Call):
            for i, kw in enumerate(n.keywords):
                if kw.arg is None or len(n.args) + len(n.keywords) < 1:
                    continue
                rest = [t.src(a) for a in n.args] + [
                    (f"**{t.src(k.value)}" if k.arg is None
                     else f"{k.arg}={t.src(k.value)}")
                    for j, k in enumerate(n.keywords) if j != i]
                yield rep(n, f"{t.src(n.func)}({', '.join(rest)})")
            if isinstance(n.func, ast.Attribute) and n.func.attr in (
                    "copy", "dropna", "reset_index", "strip", "lower",
                    "tobytes", "encode", "close", "todict", "sort", "astype"):
                yield rep(n, t.src(n.func.value))
            if isinstance(n.func, ast.Name) and n.func.id in (
                    "list", "tuple", "str", "reversed", "sorted", "copy",
                    "set", "bool", "int", "deepcopy") and len(n.args) == 1:
                yield rep(n, f"({t.src(n.args[0])})")
            if len(n.args) == 2 and not any(
                    isinstance(a, ast.Starred) for a in n.args):
                args = [t.src(n.args[1]), t.src(n.args[0])] + [
                    (f"**{t.src(k.value)}" if k.arg is None
                     else f"{k.arg}={t.src(k.value)}") for k in n.keywords]
                yield rep(n, f"{t.src(n.func)}({', '.join(args)})")
        if isinstance(n, ast.ExceptHandler) and n.type is not None:
            yield rep(n.type, "ZeroDivisionError")
            yield rep(n.type, "BaseException")
        if isinstance(n, ast.FunctionDef):
            for d in n.args.defaults + n.args.kw_defaults:
                if isinstance(d, ast.Constant) and d.value is None:
                    yield rep(d, "0")
        if isinstance(n, ast.Dict) or isinstance(n, ast.List):
            elts = n.keys if isinstance(n, ast.Dict) else n.elts
            if len(elts) > 0 and isinstance(n.ctx if isinstance(
                    n, ast.List) else ast.Load(), ast.Load):
                yield rep(n, "{}" if isinstance(n, ast.Dict) else "[]")
        if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Load):
            yield rep(n, f"{t.src(n.value)}")
        if isinstance(n, (ast.ListComp, ast.DictComp, ast.SetComp,
                          ast.GeneratorExp)):
            for g in n.generators:
                for c in g.ifs:
                    yield rep(c, "True")
        if isinstance(n, ast.With):
            # run the body without entering the context
            item = n.items[0]
            if item.optional_vars is None:
                yield rep(item.context_expr, "__import__('contextlib').nullcontext()")


class Bench:
    """a scratch copy of the repository and of the checks"""

    def __init__(self, root, ix):
        self.root = root / f"bench{ix}"
        self.repo, self.verif = self.root / "repo", self.root / "verif"
        if self.root.exists():
            shutil.rmtree(self.root)
        shutil.copytree(REPO, self.repo, symlinks=True, ignore=lambda *_: [
            ".git"])
        for part in ("vmon", "checks"):
            shutil.copytree(VERIF / part, self.verif / part)
        for name in ("run.py", "known_findings.txt"):
            shutil.copy(VERIF / name, self.verif / name)
        for path in self.verif.rglob("*.py"):
            s = path.read_text()
            if "/repo" in s:
                path.write_text(s.replace("/repo", str(self.repo)))
        (self.verif / "evidence").mkdir()
        for path in [self.root, *self.root.rglob("*")]:
            os.chown(path, NOBODY, NOBODY, follow_symlinks=False)

    def run(self, cmd, cwd, limit, env=()):
        pr = subprocess.Popen(
            cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
            stdin=subprocess.DEVNULL, user=NOBODY, group=NOBODY,
            extra_groups=[], start_new_session=True,
            env={"PATH": "/usr/bin:/bin", "HOME": str(self.root),
                 "TMPDIR": str(self.root), "PYTHONDONTWRITEBYTECODE": "1",
                 "OMP_NUM_THREADS": "1"} | dict(env))
        try:
            out, _ = pr.communicate(timeout=limit)
            code = pr.returncode
        except subprocess.TimeoutExpired:
            code, out = "timeout", b""
        try:
            os.killpg(pr.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        pr.wait()
        return code, out.decode(errors="replace")

    def tests(self):
        code, out = self.run(
            ["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "-p",
             "no:cacheprovider", "dustgoggles"], self.repo, 60,
            {"PYTHONPATH": str(self.repo)})
        return code

    def check(self, prop, scale, limit, shards):
        return self.run(
            ["/opt/venv/bin/python", "run.py", prop], self.verif, limit,
            {"VERIF_SEED": "1", "VERIF_TIER": "quick",
             "VMON_SCALE": str(scale), "VMON_SHARDS": str(shards)})


def line_map(workdir, jobs):
    """line of the code under test -> checks that execute it"""
    path = workdir / "lines.json"
    if path.exists():
        return json.loads(path.read_text())
    out = {}
    for check in sorted((VERIF / "checks").glob("c*.py")):
        prop = check.stem[:3].upper()
        lines = workdir / f"{prop}.lines"
        lines.unlink(missing_ok=True)
        subprocess.run(["/opt/venv/bin/python", "run.py", prop], cwd=VERIF,
                       env=os.environ | {"VMON_LINES": str(lines),
                                         "VERIF_TIER": "quick"},
                       stdout=subprocess.DEVNULL)
        for line in set(lines.read_text().split()):
            out.setdefault(line, []).append(prop)
    path.write_text(json.dumps(out))
    return out


# the checks to ask first (and, for lines run on import, at all)
FIRST = {
    "codex/codecs.py": ["C01", "C02", "C04"],
    "codex/memutilz.py": ["C02", "C26", "C03", "C08", "C07"],
    "codex/implements.py": ["C05", "C03", "C04", "C09", "C06", "C07", "C08"],
    "composition.py": ["C10", "C11", "C12"], "tracker.py": ["C13", "C12"],
    "dynamic.py": ["C14", "C15"], "func.py": ["C19", "C15"],
    "structures.py": ["C16", "C17", "C18", "C19"],
    "pivot.py": ["C21", "C22", "C20"], "mosaic.py": ["C24", "C23"],
    "scrape.py": ["C25"],
}


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("workdir", type=Path)
    ap.add_argument("--jobs", type=int, default=4)
    ap.add_argument("--shards", type=int, default=2)
    ap.add_argument("--scale", type=float, default=0.3)
    ap.add_argument("--only", default="")
    ap.add_argument("--sample", type=float, default=1.0)
    ap.add_argument("--seed", default="0")
    opt = ap.parse_args()
    opt.workdir.mkdir(parents=True, exist_ok=True)
    os.chmod(opt.workdir, 0o755)
    lines = line_map(opt.workdir, opt.jobs)
    results = opt.workdir / "results.jsonl"
    done = set()
    if results.exists():
        for row in results.read_text().splitlines():
            row = json.loads(row)
            done.add((row["file"], row["line"], row["what"]))
    todo = []
    rng = random.Random(opt.seed)
    for path in sorted((REPO / "dustgoggles").rglob("*.py")):
        name = str(path.relative_to(REPO / "dustgoggles"))
        if any(s in name for s in SKIP) or opt.only not in name:
            continue
        seen = set()
        for line, what, text in mutants(path.read_text()):
            key = (name, line, what)
            if text in seen or key in done:
                continue
            seen.add(text)
            try:
                compile(text, name, "exec")
            except SyntaxError:
                continue
            if rng.random() < opt.sample:
                todo.append((name, line, what, text))
    rng.shuffle(todo)
    print(f"{len(todo)} mutants", flush=True)
    work = queue.Queue()
    for item in todo:
        work.put(item)
    lock = threading.Lock()

    def serve(ix):
        bench = Bench(opt.workdir, ix)
        while True:
            try:
                name, line, what, text = work.get_nowait()
            except queue.Empty:
                return
            target = bench.repo / "dustgoggles" / name
            keep = target.read_text()
            target.write_text(text)
            row = {"file": name, "line": line, "what": what}
            began = time.time()
            try:
                code = bench.tests()
                if code != 0:
                    row["verdict"] = "tests"
                else:
                    props = [p for p in FIRST[name]]
                    have = lines.get(f"{name}:{line}", [])
                    props = ([p for p in props if p in have or not have]
                             + [p for p in have if p not in props])
                    row["asked"] = {}
                    row["verdict"] = "survived"
                    for p in props:
                        code, out = bench.check(p, opt.scale, 400,
                                                opt.shards)
                        row["asked"][p] = code
                        if code == 1 and f"VIOLATION property={p}" in out:
                            row["verdict"] = f"caught {p}"
                            break
                        if code != 0:
                            row["note"] = out[-400:]
                            row["verdict"] = "no answer"
            finally:
                target.write_text(keep)
            row["s"] = round(time.time() - began, 1)
            if ix == 0:  # blocks that outlived the processes of a mutant
                for path in Path("/dev/shm").iterdir():
                    try:
                        if (path.owner() == "nobody" and
                                time.time() - path.stat().st_mtime > 900):
                            path.unlink()
                    except (FileNotFoundError, KeyError):
                        pass
            with lock:
                with results.open("a") as f:
                    f.write(json.dumps(row) + "\n")

    threads = [threading.Thread(target=serve, args=(i,))
               for i in range(opt.jobs)]
    for th in threads:
        th.start()
    for th in threads:
        th.join()


if __name__ == "__main__":
    main()
