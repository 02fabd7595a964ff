"""python tools/coverage.py LINES: lines of functions no check executed"""
import sys
from pathlib import Path

sys.path.insert(0, str(Path(__file__).resolve().parent.parent))
from vmon import cover

seen = {}
for line in Path(sys.argv[1]).read_text().split():
    name, _, ln = line.rpartition(":")
    seen.setdefault(name, set()).add(int(ln))
for path in sorted(Path(cover.ROOT).rglob("*.py")):
    name = str(path.relative_to(cover.ROOT))
    lines = cover.executable(name)
    missing = sorted(lines - seen.get(name, set()))
    print(f"{name}: {len(lines) - len(missing)} of {len(lines)} lines")
    text = path.read_text().split("\n")
    for ln in missing:
        print(f"   {ln}: {text[ln - 1]}")
