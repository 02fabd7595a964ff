CODECS, MEM, IMP = "codex/codecs.py", "codex/memutilz.py", "codex/implements.py"
COMP, TRK, DYN = "composition.py", "tracker.py", "dynamic.py"
STR, FUNC, PIV = "structures.py", "func.py", "pivot.py"
MOS, SCR = "mosaic.py", "scrape.py"


bug("c01-same-object", "C01", [(CODECS, '''    def encode(value: Any) -> bytes:
        return pickle.dumps(value, protocol=pickle.HIGHEST_PROTOCOL)
''', '''    held = [None, None]

    def encode(value: Any) -> bytes:
        # values are often stored several times in a row
        if held[0] is not value or value is None:
            held[:] = value, pickle.dumps(value, protocol=pickle.HIGHEST_PROTOCOL)
        return held[1]
''')], "the same list or dict encoded twice in a row, altered in between",
"the second encoding is that of the former content", '''
from dustgoggles.codex.codecs import pickle_codec_factory
encode, decode = pickle_codec_factory()
value = {"a": [1]}
assert decode(encode(value)) == {"a": [1]}
value["b"] = 2
assert decode(encode(value)) == {"a": [1], "b": 2}
''')

bug("c03-callable-default", "C03", [(IMP, '''            return self.__getitem__(key, fetch)
        except KeyError:
            return default
''', '''            return self.__getitem__(key, fetch)
        except KeyError:
            return default() if callable(default) else default
''')], "get() of a key that is not there, with a callable default",
"the default is called instead of returned", '''
from dustgoggles.codex.implements import Notepad
try:
    pad = Notepad(PREFIX, create=True)
    assert pad.get("nothing", dict) is dict
finally:
    sweep()
''')

bug("c04-local-metadata", "C04", [(IMP, '''        self._open_blocks = []

    def __getitem__(self, key, fetch=True, copy=True):
        try:
            result, block = self.remember(self.index[key], fetch, copy)
''', '''        self._open_blocks = []
        self._placed = {}

    def __getitem__(self, key, fetch=True, copy=True):
        try:
            result, block = self.remember(self.index[key], fetch, copy)
'''), (IMP, '''                f"exists_ok=True to overwrite it."
            )
        self.index.add(key, metadata)
''', '''                f"exists_ok=True to overwrite it."
            )
        # the index entry only needs to be written when it changes
        if self._placed.get(key) != metadata or self.index.check(key) is None:
            self.index.add(key, metadata)
        self._placed[key] = metadata
''')], "two handles on one space: one stores A, the other stores an array of "
"another shape under the key, the first stores A again",
"the array is read with the shape of the other handle's", '''
import numpy as np
from dustgoggles.codex.implements import GridPaper
try:
    one = GridPaper(PREFIX, create=True)
    two = GridPaper(PREFIX)
    a, b = np.arange(6.0), np.arange(6.0).reshape(2, 3)
    one["key"] = a
    two["key"] = b
    one["key"] = a
    assert one["key"].shape == (6,)
finally:
    sweep()
''')

bug("c18-none-filtered", "C18", [(STR, '''            results = {
                k: v for k, v in results.items()
                if not isinstance(v, Exception)
            }
''', '''            results = {
                k: v for k, v in results.items()
                if v is not None and not isinstance(v, Exception)
            }
''')], "filter_exc=True and functions that return None",
"results that are None are dropped along with the failures", '''
from dustgoggles.structures import map_into_pool
def func(x):
    return None if x == 1 else x
out = map_into_pool(
    func, [{"args": (i,)} for i in range(3)], threads=None, filter_exc=True
)
assert out == {0: 0, 1: None, 2: 2}
''')

bug("c18-left-running", "C18", [(STR, '''        if self.pool is not None:
            self.pool.terminate()
        self.results = {}
''', '''        # nothing is left to stop once every result has arrived
        if self.pool is not None and not self.ready():
            self.pool.terminate()
        self.results = {}
''')], "terminate() of a pool whose work is all done",
"the worker processes stay", '''
import multiprocessing, time
from dustgoggles.structures import MaybePool
pool = MaybePool(2)
pool.map(abs, [{"args": (-1,)}])
pool.get()
pool.terminate()
until = time.monotonic() + 10
while multiprocessing.active_children() and time.monotonic() < until:
    time.sleep(0.05)
left = multiprocessing.active_children()
pool.pool.terminate()
assert not left
''')

bug("c18-interrupted-get", "C18", [(STR, '''            except KeyboardInterrupt:
                raise
            except Exception as ex:
                if raise_exc:
                    raise ex
                output[k] = ex
''', '''            except BaseException as ex:
                if raise_exc:
                    raise ex
                output[k] = ex
''')], "a keyboard interrupt while get() waits for results",
"the interrupt is stored as if it were a result", '''
import signal, time
from dustgoggles.structures import MaybePool
def interrupt(*_):
    raise KeyboardInterrupt
signal.signal(signal.SIGALRM, interrupt)
pool = MaybePool(2)
try:
    pool.map(time.sleep, [{"args": (3,)}])
    signal.setitimer(signal.ITIMER_REAL, 0.5)
    try:
        pool.get()
    except KeyboardInterrupt:
        sys.exit(0)
    sys.exit(3)
finally:
    pool.terminate()
''')

bug("c25-last-group", "C25", [(SCR, '''return literal_eval(result.group(1))''',
'''return literal_eval(result.group(result.lastindex))''')],
"a pattern with more than one group",
"the value is taken from the last group rather than the first", '''
from dustgoggles.scrape import make_scraper
scrape = make_scraper("LINES = 12 (FILE 3)")
assert scrape(r"LINES = (\\d+) .FILE (\\d+)") == 12
''')

bug("c08-left-counter", "C08", [(IMP, '''        for obj in self.lock, self.count, self.marker:
            try:
                delete_block(obj.name)
            except (FileNotFoundError, TypeError, AttributeError):
                continue
''', '''        try:
            for obj in self.lock, self.marker, self.count:
                delete_block(obj.name)
        except (FileNotFoundError, TypeError, AttributeError):
            return
''')], "a lock closed while it is not held",
"the block of its counter is left behind", '''
from dustgoggles.codex.implements import SlidingLock
try:
    lock = SlidingLock(PREFIX)
    with lock:
        pass
    lock.close()
    left = glob.glob(f"/dev/shm/{PREFIX}*")
finally:
    sweep()
assert left == [], left
''')

bug("c15-limited", "C15", [(DYN, '''    while tb is not None:
        fr = tb.tb_frame
''', '''    limit = getattr(__import__("sys"), "tracebacklimit", 1000000)
    while tb is not None and len(report['name']) < limit:
        fr = tb.tb_frame
''')], "an application that set sys.tracebacklimit to shorten what is printed",
"exception reports are cut short", '''
from dustgoggles.dynamic import exc_report
def inner():
    raise ValueError("no")
def outer():
    inner()
sys.tracebacklimit = 1
try:
    outer()
except ValueError as ex:
    report = exc_report(ex)
assert len(report["lineno"]) == 3, report
''')

bug("c20-floats-kept", "C20", [(PIV, '''        if kind == 'float' and number == arr.dtype.itemsize * 8:
            return''', '''        if kind == 'float' and number >= 16:
            return''')], "fractional values that fit a narrower float type",
"floating-point arrays are never made narrower", '''
import numpy as np
from dustgoggles.pivot import downcast
assert downcast(np.array([0.5, 1.25, -2.0]))["recast"].dtype == np.float16
''')

bug("c10-itercall-default", "C10", [(COMP, '''    def itercall(self, signal: Any = None, **special_kwargs):
        self._bind''', '''    def itercall(self, signal: Any = (), **special_kwargs):
        self._bind''')], "itercall() without a signal",
"the steps get an empty tuple instead of None", '''
from dustgoggles.composition import Composition
assert list(Composition([lambda x: x is None]).itercall()) == [True]
''')

bug("c04-gone-value", "C04", [(IMP, '''        except FileNotFoundError:
            raise KeyError(f"{key} not found in this object's space.")
        return result
''', '''        except FileNotFoundError:
            # deleted since we looked it up
            result = None
        return result
''')], "an array whose block another process removes before it is opened",
"reading the key returns None instead of raising KeyError", '''
import numpy as np
from dustgoggles.codex.implements import GridPaper
from dustgoggles.codex.memutilz import delete_block
try:
    paper = GridPaper(PREFIX, create=True)
    paper["key"] = np.arange(3)
    delete_block(paper.address("key"))
    try:
        paper["key"]
    except KeyError:
        sys.exit(0)
    sys.exit(3)
finally:
    sweep()
''')
