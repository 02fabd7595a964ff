"""python run.py CNN [--replay FILE]: run the check of one property"""
import importlib
import os
import sys
from pathlib import Path

sys.dont_write_bytecode = True
sys.path.insert(0, str(Path(__file__).resolve().parent))
os.environ.setdefault("OMP_NUM_THREADS", "1")
os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")


def main():
    from vmon import boot, core
    prop = sys.argv[1]
    # details of a violation may hold any text at all
    for stream in (sys.stdout, sys.stderr):
        stream.reconfigure(errors="backslashreplace")
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    boot.boot()
    module = next(Path(__file__).parent.glob(f"checks/{prop.lower()}_*.py"))
    check = importlib.import_module(f"checks.{module.stem}").CHECK
    assert check.prop == prop
    if "--replay" in sys.argv:
        return core.replay(check, sys.argv[sys.argv.index("--replay") + 1])
    return core.run(check, tier, seed)


if __name__ == "__main__":
    sys.exit(main())
