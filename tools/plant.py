"""
plant bugs: python tools/plant.py SPECS.py [ID...]

SPECS.py holds calls of bug(id, property, edits, needs, breaks, demo).  Each
bug is applied to /repo, tested, demonstrated, run against its property's
quick check, and undone; if it counts, seeded/<id>/ is written.  One line per
bug says what happened.
"""
import json
import os
import subprocess
import sys
from pathlib import Path

ROOT = Path(__file__).resolve().parent.parent
REPO = Path("/repo")
PY = "/opt/venv/bin/python"
BASE = "1830847"
HEAD = '''import os, sys, glob
from pathlib import Path

PREFIX = f"demo{os.getpid()}x"


def sweep():
    for path in glob.glob(f"/dev/shm/{PREFIX}*"):
        os.unlink(path)


'''
SH = '''#!/bin/bash
here="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD"
work="$(mktemp -d)"
trap 'rm -rf "$work"' EXIT
cd "$work" || exit 2
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$repo" timeout 250 \\
    /opt/venv/bin/python "$here/demo.py"
'''
BUGS = {}


def bug(id_, prop, edits, needs, breaks, demo):
    assert id_ not in BUGS, id_
    BUGS[id_] = (prop, edits, needs, breaks, demo)


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, text=True, capture_output=True,
                          **kw)


def undo():
    sh("git -C /repo checkout -- .")


def plant(id_, check=True):
    prop, edits, needs, breaks, demo = BUGS[id_]
    assert not sh("git -C /repo status --porcelain").stdout.strip()
    target = ROOT / "seeded" / id_
    target.mkdir(parents=True, exist_ok=True)
    (target / "demo.py").write_text(HEAD + demo.strip() + "\n")
    (target / "demo.sh").write_text(SH)
    os.chmod(target / "demo.sh", 0o755)
    (target / "meta.json").write_text(json.dumps(
        {"property": prop, "needs": needs, "what_it_breaks": breaks},
        indent=1) + "\n")
    clean = sh(f"bash {target}/demo.sh", cwd=REPO)
    notes = []
    if clean.returncode:
        notes.append(f"DEMO FAILS CLEAN: {clean.stderr[-600:]}")
    try:
        for name, old, new in edits:
            path = REPO / "dustgoggles" / name
            text = path.read_text()
            if text.count(old) != 1:
                return f"{id_}: {text.count(old)} occurrences of {old!r}"
            path.write_text(text.replace(old, new))
        diff = sh("git -C /repo diff").stdout
        (target / "patch.diff").write_text(diff)
        touched = 0
        for name, *_ in edits:
            rel = f"dustgoggles/{name}"
            hunks = sh(f"git -C /repo diff -U0 -- {rel}").stdout
            blame = sh(f"git -C /repo blame -s HEAD -- {rel}"
                       ).stdout.splitlines()
            for line in hunks.splitlines():
                if line.startswith("@@"):
                    start, _, n = line.split()[1][1:].partition(",")
                    for i in range(int(start), int(start) + int(n or 1)):
                        touched += blame[i - 1].lstrip("^").startswith(
                            BASE[:7])
        if not touched:
            notes.append("NO ORIGINAL LINE CHANGED")
        tests = sh("bash /opt/vp/build.sh >/dev/null 2>&1; "
                   "bash /opt/vp/test.sh /tmp/plant.json", cwd=REPO)
        last = (tests.stdout.strip().splitlines() or ["?"])[-1]
        if "28 passed, 0 failed" not in last:
            notes.append(f"TESTS: {last}")
        dirty = sh(f"bash {target}/demo.sh", cwd=REPO)
        if dirty.returncode == 0:
            notes.append("DEMO PASSES WITH BUG")
        verdict = "not run"
        if check:
            run = sh(f"{PY} run.py {prop}", cwd=ROOT,
                     env=os.environ | {"VERIF_SEED": "1",
                                       "VERIF_TIER": "quick"})
            said = [line for line in run.stdout.splitlines()
                    if line.startswith("VIOLATION")]
            verdict = f"caught ({run.stdout.splitlines()[0].split(',')[-1]})"\
                if run.returncode == 1 and said else \
                f"MISSED rc={run.returncode} {run.stdout[-300:]}"
    finally:
        undo()
        sh("git -C /repo status --porcelain")
    return f"{id_} {prop}: {verdict} {' | '.join(notes)}"


if __name__ == "__main__":
    sys.modules["plant"] = sys.modules["__main__"]
    exec(compile(Path(sys.argv[1]).read_text(), sys.argv[1], "exec"))
    for id_ in sys.argv[2:] or list(BUGS):
        print(plant(id_), flush=True)
