"""setup: nothing to build; check that the tools and /repo are usable"""
import sys
from pathlib import Path

sys.dont_write_bytecode = True
sys.path.insert(0, str(Path(__file__).resolve().parent.parent))
from vmon import boot  # noqa

boot.boot()
boot.import_all()
print("ready")
