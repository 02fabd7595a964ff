CODECS, MEM, IMP = "codex/codecs.py", "codex/memutilz.py", "codex/implements.py"
COMP, TRK, DYN = "composition.py", "tracker.py", "dynamic.py"
STR, FUNC, PIV = "structures.py", "func.py", "pivot.py"
MOS, SCR = "mosaic.py", "scrape.py"


bug("c27-numpy-codecs", "C27", [(CODECS, '''    import numpy as np

    def memorize_array(''', '''    def memorize_array('''), (CODECS, '''import weakref

from multi''', '''import weakref

import numpy as np

from multi''')], "an installation without numpy",
"no part of the shared-memory helpers can be imported without numpy", '''
import subprocess
code = """
import sys
class Hide:
    def find_spec(self, name, path=None, target=None):
        if name.partition(".")[0] == "numpy":
            raise ModuleNotFoundError(name, name=name)
sys.meta_path.insert(0, Hide())
from dustgoggles.codex.codecs import json_codec_factory
encode, decode = json_codec_factory()
assert decode(encode([1])) == [1]
"""
assert subprocess.run([sys.executable, "-c", code]).returncode == 0
''')

bug("c27-array-fallback", "C27", [(CODECS, '''    import numpy as np

    def memorize_array(''', '''    try:
        import numpy as np
    except ImportError:
        return generic_mnemonic_factory()

    def memorize_array(''')], "an installation without numpy",
"asking for array storage yields something that stores no arrays", '''
import subprocess
code = """
import sys
class Hide:
    def find_spec(self, name, path=None, target=None):
        if name.partition(".")[0] == "numpy":
            raise ModuleNotFoundError(name, name=name)
sys.meta_path.insert(0, Hide())
from dustgoggles.codex.codecs import numpy_mnemonic_factory
try:
    numpy_mnemonic_factory()
except ImportError:
    sys.exit(0)
sys.exit(3)
"""
assert subprocess.run([sys.executable, "-c", code]).returncode == 0
''')

bug("c27-start-method", "C27", [(STR, '''from multiprocessing import Pool
''', '''import multiprocessing

multiprocessing.set_start_method("fork", force=True)
Pool = multiprocessing.Pool
''')], "a program that chooses how processes are started",
"importing structures fixes the start method of the whole process", '''
import multiprocessing
import dustgoggles.structures
multiprocessing.set_start_method("spawn")
assert multiprocessing.get_start_method() == "spawn"
''')

bug("c27-warning-filter", "C27", [(PIV, '''        with warnings.catch_warnings():
            warnings.simplefilter('error')
            recast = arr_nzero.astype(dtype)
''', '''        recast = arr_nzero.astype(dtype)
'''), (PIV, '''from dustgoggles.structures import listify
''', '''from dustgoggles.structures import listify

warnings.filterwarnings("error", category=RuntimeWarning)
''')], "a warning raised elsewhere after the import",
"importing pivot turns everybody's runtime warnings into errors", '''
import warnings
import dustgoggles.pivot
warnings.warn("an ordinary warning", RuntimeWarning)
''')

bug("c27-eager-resource-tracker", "C27", [(MEM, '''from multiprocessing.shared_memory import SharedMemory
import sys
import time
''',
'''from multiprocessing import resource_tracker, shared_memory
import sys
import time

resource_tracker.ensure_running()
SharedMemory = shared_memory.SharedMemory
''')], "importing, without ever using shared memory",
"importing starts the resource tracker process", '''
from multiprocessing import resource_tracker
import dustgoggles.codex.memutilz
assert resource_tracker._resource_tracker._pid is None
''')

bug("c11-exact-types", "C11", [(COMP, '''        elif isinstance(target, dict):
            target[pointer] = thing
''', '''        elif type(target) is dict:
            target[pointer] = thing
''')], "a send into a defaultdict, OrderedDict or Counter",
"outputs sent to dict subclasses are lost", '''
from collections import OrderedDict, defaultdict
from dustgoggles.composition import Composition
for target in ({}, OrderedDict(), defaultdict(list)):
    c = Composition([str])
    c.add_send(0, target=target, pointer="k")
    c.execute(1)
    assert target["k"] == "1"
''')

bug("c11-declared-streams", "C11", [(COMP, '''        elif "write" in dir(target):
            target.write(thing)
''', '''        elif hasattr(type(target), "write"):
            target.write(thing)
''')], "a target that gets its write method from elsewhere",
"objects with an own write attribute receive nothing", '''
from types import SimpleNamespace
from dustgoggles.composition import Composition
got = []
c = Composition([str])
c.add_send(0, target=SimpleNamespace(write=got.append))
c.execute(1)
assert got == ["1"]
''')

bug("c12-known-exceptions", "C12", [(COMP, '''        except Exception as ex:
            if self.tracker''', '''        except (
            ArithmeticError, AssertionError, AttributeError, LookupError,
            NameError, OSError, RuntimeError, TypeError, ValueError,
            ImportError, MemoryError, BufferError, EOFError, SyntaxError,
            Warning, SystemError, ReferenceError
        ) as ex:
            if self.tracker''')], "a step that raises a class derived directly "
"from Exception", "such failures are neither tracked nor optional", '''
from dustgoggles.composition import Composition
class Own(Exception):
    pass
def step(x):
    raise Own("no")
assert Composition([step], optional=True).execute(1) is None
''')

bug("c13-kept-rows", "C13", [(TRK, '''        self.history[:] = []
''', '''        self.history.clear()
        self.metadata.pop("trackcount", None)
'''), (TRK, '''        self.history.append(rec)
''', '''        self.history.append(rec)
        if len(self.history) > 4096:
            del self.history[:-4096]
''')], "more than 4096 track calls", "old records are dropped", '''
import json
from dustgoggles.tracker import Tracker
t = Tracker("t", outdir=Path("."))
for i in range(5000):
    t.track(print, i=i)
assert [r["trackcount"] for r in t.history] == list(range(1, 5001))
''')

bug("c14-optimized", "C14", [(DYN, '''    return get_codechild(compile(source, "", "exec"))
''', '''    return get_codechild(compile(source, "", "exec", optimize=1))
''')], "a function with an assert statement", "assertions are not checked",
'''
from dustgoggles.dynamic import Dynamic
f = Dynamic("def f(x):\\n    assert x > 0, 'no'\\n    return x")
assert f(1) == 1
try:
    f(-1)
except AssertionError:
    sys.exit(0)
sys.exit(3)
''')

bug("c14-future-annotations", "C14", [(DYN, '''from inspect import getsource, signature, Signature, getmodule
from types import FunctionType, CodeType, MethodType
''', '''from __future__ import annotations

from inspect import getmodule, getsource, signature, Signature
from types import CodeType, FunctionType, MethodType
''')], "a source that defines annotated functions or classes inside",
"their annotations are text: compile inherits the module's future statements",
'''
from dustgoggles.dynamic import Dynamic
f = Dynamic("def f():\\n    def g(x: int): pass\\n    return g")
assert f().__annotations__ == {"x": int}
''')

bug("c15-depth", "C15", [(DYN, '''    while tb is not None:
''', '''    while tb is not None and len(report['lineno']) < 500:
''')], "a traceback of more than 500 frames",
"the frames where the exception was raised are missing", '''
from dustgoggles.dynamic import exc_report
def f(n):
    if n == 0:
        raise ValueError("deep")
    f(n - 1)
try:
    f(600)
except ValueError as ex:
    report = exc_report(ex)
assert len(report["lineno"]) == 602, len(report["lineno"])
''')

bug("c18-kept-results", "C18", [(STR, '''            self.results = {
                rec['key']: self.apply(func, rec['args'], rec['kwargs'])
                for rec in argrecs
            }
''', '''            self.results |= {
                rec['key']: self.apply(func, rec['args'], rec['kwargs'])
                for rec in argrecs
            }
''')], "two map calls on one pool, with different keys",
"results of the earlier call are returned again", '''
from dustgoggles.structures import MaybePool
pool = MaybePool()
pool.map(abs, [{"key": "a", "args": (-1,)}])
assert pool.get() == {"a": 1}
pool.map(abs, [{"key": "b", "args": (-2,)}])
assert pool.get() == {"b": 2}
''')

bug("c18-key-by-truth", "C18", [(STR, '''            rec['key'] = rec.get('key', i)
''', '''            rec['key'] = str(rec.get('key', i))
''')], "keys that are not text", "results appear under the text of the key", '''
from dustgoggles.structures import MaybePool
pool = MaybePool()
pool.map(abs, [{"key": (1, 2), "args": (-1,)}, {"key": "x", "args": (3,)}])
assert pool.get() == {(1, 2): 1, "x": 3}
''')

bug("c25-replaced-bytes", "C25", [(SCR, '''        return file.read(byte_size).decode()
''', '''        return file.read(byte_size).decode(errors="ignore")
''')], "a label with bytes that are not UTF-8", "they vanish from the text", '''
from dustgoggles.scrape import get_label_text
Path("l").write_bytes(b"a\\xe9b")
try:
    got = get_label_text("l")
except UnicodeDecodeError:
    sys.exit(0)
assert got.encode("utf-8", "surrogateescape") == b"a\\xe9b", got
''')

bug("c25-whole-lines", "C25", [(SCR, '''    head_buffer.write(fn_or_reader.read(nbytes))
''', '''    while head_buffer.tell() < nbytes:
        if not (line := fn_or_reader.readline(nbytes - head_buffer.tell())):
            break
        head_buffer.write(line.replace(b"\\r\\r\\n", b"\\r\\n"))
''')], "a head that contains doubled carriage returns", "bytes are dropped", '''
from dustgoggles.scrape import head_file
data = b"a\\r\\r\\nb" * 3
Path("l").write_bytes(data)
assert head_file("l", 1000).read() == data
''')

bug("c01-refused-floats", "C01", [(CODECS, '''        return json.dumps(value).encode()
''', '''        return json.dumps(value, allow_nan=False).encode()
''')], "an infinite or missing number in the value",
"values that came back before are refused", '''
import math
from dustgoggles.codex.codecs import json_codec_factory
encode, decode = json_codec_factory()
assert decode(encode([math.inf])) == [math.inf]
assert math.isnan(decode(encode(math.nan)))
''')

bug("c01-pretty", "C01", [(CODECS, '''        return repr(value).encode()
''', '''        return pformat(value, width=1000000, compact=True).encode()
'''), (CODECS, '''import ast
import json
import pickle
''', '''import ast, json, pickle
from pprint import pformat
''')], "a mapping whose keys are not in sorted order",
"the order of the keys is lost", '''
from dustgoggles.codex.codecs import ast_codec_factory
encode, decode = ast_codec_factory()
assert list(decode(encode({"b": 1, "a": 2}))) == ["b", "a"]
''')

bug("c03-short-names", "C03", [(IMP, '''        return f"{self.prefix}_{key}"

    def update_index''', '''        return f"{self.prefix}_{key}"[:96]

    def update_index''')], "two long keys with a common beginning",
"the keys share one value", '''
from dustgoggles.codex.implements import Notepad
pad = Notepad(PREFIX, create=True)
try:
    pad["k" * 100 + "a"], pad["k" * 100 + "b"] = 1, 2
    assert pad["k" * 100 + "a"] == 1
finally:
    pad.close()
    sweep()
''')

bug("c03-fallback", "C03", [(IMP, '''        try:
            return self.__getitem__(key, fetch)
        except KeyError:
            return default

    def __setitem__(self, key, value, meta=None''', '''        try:
            value = self.__getitem__(key, fetch)
        except KeyError:
            return default
        return default if value is None else value

    def __setitem__(self, key, value, meta=None''')], "a stored None, "
"fetched with a default", "the default is returned instead", '''
from dustgoggles.codex.implements import Notepad
pad = Notepad(PREFIX, create=True)
try:
    pad["a"] = None
    assert pad.get("a", 5) is None
finally:
    pad.close()
    sweep()
''')

bug("c05-key-text", "C05", [(IMP, '''            key = str(key).encode()
        namehash''', '''            key = str(key).strip().encode()
        namehash''')], "two keys that differ in surrounding whitespace",
"the index takes them for one", '''
from dustgoggles.codex.implements import TagIndex
index = TagIndex(PREFIX)
try:
    index.add("a"), index.add("a "), index.add("\\na")
    assert sorted(index.update()) == ["\\na", "a", "a "]
finally:
    index.close()
    sweep()
''')

bug("c05-normal-keys", "C05", [(IMP, '''        keybytes = str(key).encode()
''', '''        keybytes = normalize("NFC", str(key)).encode()
'''), (IMP, '''from typing import Any, Union, Optional, Callable

from cytoolz import juxt
''', '''from typing import Any, Union, Optional, Callable
from unicodedata import normalize

from cytoolz import juxt
''')], "a key in a decomposed Unicode form",
"listing gives a key the index does not contain", '''
from dustgoggles.codex.implements import TagIndex
index = TagIndex(PREFIX)
try:
    index.add("e\\u0301")
    assert index.update() == ["e\\u0301"]
finally:
    index.remove("e\\u0301")
    index.close()
    sweep()
''')

bug("c09-falsy-address", "C09", [(IMP, '''        if address is None:
            init_kwargs['address'] = ''', '''        if not address:
            init_kwargs['address'] = ''')], "the address 0",
"the object is stuck somewhere else", '''
from dustgoggles.codex.implements import Sticky
note = Sticky.note("x", 0)
try:
    assert note.address == "0" and Sticky(0).read() == "x"
finally:
    note.close()
''')

bug("c26-late-removal", "C26", [(MEM, '''    def fix_unregister(name, rtype):
        if rtype == "shared_memory":
            return
''', '''    def fix_unregister(name, rtype):
        if rtype in ("shared_memory", "semaphore"):
            return
''')], "locks and semaphores released after deactivation",
"the tracker complains of leaked semaphores", '''
import subprocess
code = """
from dustgoggles.codex.memutilz import deactivate_shared_memory_resource_tracker
deactivate_shared_memory_resource_tracker()
import multiprocessing
lock = multiprocessing.get_context("spawn").Lock()
del lock
"""
got = subprocess.run([sys.executable, "-c", code], capture_output=True,
                     text=True)
assert got.returncode == 0 and "leaked" not in got.stderr, got.stderr
''')
