"""source of MANIFEST.json: run `python3 tools/manifest.py` to regenerate it"""
import json
import re
from pathlib import Path

ROOT = Path(__file__).resolve().parent.parent

TECH = {
    "C01": ("runtime monitor: codec round trips vs typed deep equality", ""),
    "C02": ("runtime monitor: block histories vs dict model and the OS's own "
            "view of /dev/shm", ""),
    "C03": ("runtime monitor: multi-handle, multi-process histories vs dict "
            "model", ""),
    "C04": ("runtime monitor: array histories vs dict-of-arrays model", ""),
    "C05": ("runtime monitor: index histories vs set/slot/metadata model", ""),
    "C06": ("trace monitor of guarded sections under a line-level "
            "deterministic scheduler (random walk, PCT), plus real processes "
            "with injected delays", ""),
    "C07": ("trace monitors under a line-level deterministic scheduler, plus "
            "real-process stress with injected delays", ""),
    "C08": ("shared-memory event log monitor: block conservation, ownership "
            "and fd counts", ""),
    "C09": ("runtime monitor: sticky histories vs last-writer model", ""),
    "C10": ("runtime monitor: recorded calls of generated compositions vs "
            "reference interpreter", ""),
    "C11": ("runtime monitor: send/capture event log vs reference "
            "interpreter", ""),
    "C12": ("fault injection into steps/pipes; monitor of calls, exceptions "
            "and tracker records", ""),
    "C13": ("runtime monitor: tracker histories vs list model; log file "
            "parsed after every operation", ""),
    "C14": ("differential monitor: dynamic functions vs exec'd twin over "
            "generated sources and histories", ""),
    "C15": ("runtime monitor: recorded exceptions and frames vs reports", ""),
    "C16": ("runtime monitor: generated nested mappings vs independent "
            "traversal", ""),
    "C17": ("runtime monitor: generated nested mappings vs reference "
            "transformations", ""),
    "C18": ("runtime monitor: evaluation log and results of pool maps vs "
            "direct evaluation", ""),
    "C19": ("runtime monitor: generated arguments vs definitional oracles",
            ""),
    "C20": ("runtime monitor: boundary-biased arrays vs exact arithmetic",
            ""),
    "C21": ("runtime monitor: generated frames vs cell-by-cell oracle", ""),
    "C22": ("runtime monitor: generated frames/series vs row-by-row oracle",
            ""),
    "C23": ("runtime monitor: generated parquet files, row conservation and "
            "order of the output", ""),
    "C24": ("runtime monitor: generated parquet files vs pyarrow's metadata "
            "and data", ""),
    "C25": ("runtime monitor: generated labels vs direct text search", ""),
    "C26": ("subprocess monitor: /dev/shm, stderr and exit status after "
            "generated scripts", ""),
    "C27": ("subprocess monitor: module finder that hides packages, audit "
            "hook and process-state comparison during imports", ""),
}
NOTE = ("Held on every execution the monitor observed (counts in the evidence "
        "file), for seeded random cases; no claim beyond them. Trusts CPython, "
        "numpy/pandas/pyarrow and the oracle in the check's source.")

props = [json.loads(line) for line in
         (ROOT / "properties.jsonl").read_text().splitlines()]
checks, missing = [], []
for p in props:
    pid = p["id"]
    if not list(ROOT.glob(f"checks/{pid.lower()}_*.py")):
        missing.append({"property": pid,
                        "reason": "check not built yet (work in progress)"})
        continue
    tech, extra = TECH[pid]
    checks.append({
        "property": pid,
        "quick_cmd": f"/opt/venv/bin/python run.py {pid}",
        "thorough_cmd": f"VERIF_TIER=thorough /opt/venv/bin/python run.py {pid}",
        "evidence_file": f"evidence/{pid}.json",
        "technique": tech,
        "level": "exploration",
        "level_note": (NOTE + " " + extra).strip(),
    })
out = {
    "version": 1,
    "setup_cmd": "/opt/venv/bin/python tools/setup.py",
    "checks": checks,
    "not_applicable": missing,
    "notes": "No hooks in /repo: monitors attach from outside (public API, "
             "the standard library's shared-memory calls, sys.settrace).",
}
(ROOT / "MANIFEST.json").write_text(json.dumps(out, indent=1) + "\n")
print(len(checks), "claimed", len(missing), "not")
