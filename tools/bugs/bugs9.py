CODECS, MEM, IMP = "codex/codecs.py", "codex/memutilz.py", "codex/implements.py"
COMP, TRK, DYN = "composition.py", "tracker.py", "dynamic.py"
STR, FUNC, PIV = "structures.py", "func.py", "pivot.py"
MOS, SCR = "mosaic.py", "scrape.py"


bug("c11-pipe-truth", "C11", [(COMP, '''            elif pipe is None:
                self.place_into(state, target, index)
''', '''            elif not pipe:
                self.place_into(state, target, index)
''')], "a pipe whose truth value is False, e.g. a callable container that is "
"still empty",
"the target is sent the unpiped output", '''
from dustgoggles.composition import Composition


class Seen(list):
    def __call__(self, x):
        self.append(x)
        return -x

c = Composition([abs])
got = []
c.add_send(0, pipe=Seen(), target=got)
c.execute(3)
assert got == [-3], got
''')

bug("c12-paused-failures", "C12", [(COMP, '''                self.tracker.track(
                    self.steps[''', '''                # nothing is written for paused trackers
                getattr(self.tracker, "paused", False) or self.tracker.track(
                    self.steps[''')], "a step fails while the tracker is "
"paused",
"the failure is not recorded, though completed steps are", '''
from pathlib import Path
from dustgoggles.composition import Composition
from dustgoggles.tracker import Tracker
for paused in (False, True):
    t = Tracker("t", outdir=Path("logs"))
    t.paused = paused
    c = Composition([abs, len], tracker=t, optional=True)
    assert c.execute(-1) is None
    assert [r["target"] for r in t.history] == ["abs", "len"], t.history
    assert "TypeError" in t.history[-1]["exception"]
''')

bug("c18-returned-exits", "C18", [(STR, '''                if not isinstance(v, Exception)
''', '''                if not isinstance(v, BaseException)
''')], "a call that returns (not: raises) an exit exception while failures "
"are filtered",
"its result is dropped", '''
from dustgoggles.structures import map_into_pool
out = map_into_pool(KeyboardInterrupt, [{"key": "a", "args": ("x",)}],
                    filter_exc=True)
assert list(out) == ["a"] and out["a"].args == ("x",), out
''')

bug("c25-line-anchors", "C25", [(SCR, '''        result = re.search(pattern, label_text)
''', '''        result = re.search(
            pattern, label_text, 0 if isinstance(pattern, re.Pattern) else re.M
        )
''')], "patterns with anchors, for texts of several lines",
"anchors match at every line", r"""
from dustgoggles.scrape import make_scraper
scrape = make_scraper("a = 1\nb = 2\n")
assert scrape("^a = (.*)") == 1
assert scrape("^b = (.*)") is None
assert scrape("(.*)$") == "b = 2"
""")

bug("c25-files-only", "C25", [(SCR, '''cached_exists = cache(os.path.exists)
''', '''cached_exists = cache(os.path.isfile)
''')], "the path of a folder",
"the folder does not exist", '''
import os
from dustgoggles.scrape import cached_exists
os.mkdir("d")
assert cached_exists(os.path.abspath("d"))
''')
