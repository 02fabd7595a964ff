CODECS, MEM, IMP = "codex/codecs.py", "codex/memutilz.py", "codex/implements.py"
COMP, TRK, DYN = "composition.py", "tracker.py", "dynamic.py"
STR, FUNC, PIV = "structures.py", "func.py", "pivot.py"
MOS, SCR = "mosaic.py", "scrape.py"

bug("c01-default-text", "C01", [(CODECS, '''        return json.dumps(value).encode()
''', '''        return json.dumps(value, default=str).encode()
''')], "a value JSON does not know, anywhere inside the value",
"values of unsupported types silently become text", '''
import decimal
from dustgoggles.codex.codecs import json_codec_factory
encode, decode = json_codec_factory()
for value in [{1, 2}, [1, {"a": b"x"}], decimal.Decimal("1.5"), 1j]:
    try:
        got = decode(encode(value))
    except Exception:
        continue
    raise AssertionError((value, got))
''')

bug("c01-pretty-literals", "C01", [(CODECS, '''        return json.loads(blob)
    return encode, decode
''', '''        def number(text):
            return round(float(text), 15)
        return json.loads(blob, parse_float=number)
    return encode, decode
''')], "a float whose 16th or 17th decimal matters, or a huge or tiny one",
"floats come back rounded", '''
import math
from dustgoggles.codex.codecs import json_codec_factory
encode, decode = json_codec_factory()
for value in [0.1, 1.5e-17, math.pi / 1000, 2.0**-1074, 1e300]:
    assert decode(encode([value])) == [value], value
''')

bug("c02-handle-cache", "C02", [(MEM, '''    block = SharedMemory(address)
    return block.buf.tobytes()
''', '''    block = _HANDLES.get(address)
    if block is None or not exists_block(address):
        block = _HANDLES[address] = SharedMemory(address)
    return block.buf.tobytes()


_HANDLES = {}
''')], "a block read, overwritten by a save, and read again by the same process",
"fetching goes on reading the unlinked block", '''
from dustgoggles.codex.codecs import *
encode, decode = pickle_codec_factory()
memorize, remember = generic_mnemonic_factory()
try:
    for value in [[1], {"a": 2}, "x" * 100]:
        memorize(value, PREFIX, True, encode)
        assert remember(PREFIX, decode=decode) == value
finally:
    sweep()
''')

bug("c02-spurious-missing", "C02", [(MEM, '''    try:
        block = SharedMemory(address)
        block.unlink()
        block.close()
    except FileNotFoundError:
''', '''    try:
        block = SharedMemory(address)
        if block.buf.tobytes().strip(b"\\x00"):
            block.unlink()
        elif missing_ok is False:
            block.unlink()
        block.close()
    except FileNotFoundError:
''')], "deleting a block of null bytes with a missing block allowed",
"blocks that look empty are left behind", '''
from dustgoggles.codex.memutilz import *
try:
    for content in [b"abc", b"\\0\\0\\0\\0", b"\\0"]:
        block = open_block(PREFIX, len(content))
        block.buf[:] = content
        delete_block(PREFIX, missing_ok=True)
        assert not os.path.exists(f"/dev/shm/{PREFIX}"), content
finally:
    sweep()
''')

bug("c03-same-length", "C03", [(IMP, '''    def update(self):
        self.cache = []
        self.update_length()
''', '''    def update(self):
        before = self.length
        self.update_length()
        if self.length == before and len(self.cache) == before:
            # nothing was added or removed
            return self.cache
        self.cache = []
'''), (IMP, '''        with self.lock_class(self.name, self.debug):
            return self._add(key, exists_ok)

    def _delitem''', '''        with self.lock_class(self.name, self.debug):
            self.cache = []
            return self._add(key, exists_ok)

    def _delitem'''), (IMP, '''        found_at = self.check(target)
        if found_at is None:
            raise KeyError(f"{target} not found in this index.")
        self.update_length()
''', '''        found_at = self.check(target)
        if found_at is None:
            raise KeyError(f"{target} not found in this index.")
        self.cache = []
        self.update_length()
''')], "one handle lists, another deletes one key and sets a new one, the first "
"lists again", "a listing is taken from the cache if the number of keys is "
"the same", '''
from dustgoggles.codex.implements import Notepad
try:
    a, b = Notepad(PREFIX, create=True), Notepad(PREFIX)
    a["x"], a["y"] = 1, 2
    assert sorted(a.keys()) == sorted(b.keys()) == ["x", "y"]
    del b["x"]
    b["z"] = 3
    assert sorted(b.keys()) == ["y", "z"]
    assert sorted(a.keys()) == ["y", "z"]
finally:
    sweep()
''')

bug("c03-failed-overwrite", "C03", [(CODECS, '''        encoded = encode(value)
        size = len(encoded)
        block = open_block(address, size, True, True)
        block.buf[:] = encoded
        return address
''', '''        if exists_ok is True:
            # make room first: two copies may not fit
            delete_block(address, missing_ok=True)
        encoded = encode(value)
        size = len(encoded)
        block = open_block(address, size, True, True)
        block.buf[:] = encoded
        return address
'''), (CODECS, '''    open_block, fetch_block_bytes, exists_block
''', '''    open_block, fetch_block_bytes, exists_block, delete_block
''')], "overwriting a present key with a value that cannot be pickled",
"the old value is gone after the failed set", '''
from dustgoggles.codex.implements import Notepad
try:
    pad = Notepad(PREFIX, create=True)
    pad["x"] = [1, 2]
    try:
        pad["x"] = lambda: None
    except Exception:
        pass
    else:
        raise AssertionError
    assert pad["x"] == [1, 2] and pad.keys() == ["x"]
finally:
    sweep()
''')

bug("c03-dump-text", "C03", [(IMP, '''            # noinspection PyTypeChecker
            file.write(self.get_raw(key))
''', '''            # noinspection PyTypeChecker
            file.write(self.get_raw(key).rstrip(b"\\x00"))
''')], "dumping a value whose encoding ends with null bytes (raw or custom codec)",
"a dump lacks the trailing nulls", '''
from dustgoggles.codex.implements import Notepad
try:
    pad = Notepad(PREFIX, create=True,
                  codec_factory=lambda: (bytes, bytes))
    for value in [b"abc", b"abc\\0\\0", b"\\0\\0\\0"]:
        pad["x"] = value
        pad.dump("x", "out")
        assert Path("out").read_bytes() == value
finally:
    sweep()
''')

bug("c04-kept-metadata", "C04", [(IMP, '''        self.index.add(key, metadata)

    def _add_index_key''', '''        known = {"size": None}
        if self.index.check(key) is not None:
            known = json_codec_factory()[1](self.index[key])
        if known["size"] != metadata["size"] or known["size"] == 0:
            # otherwise it is the same block, nothing to update
            self.index.add(key, metadata)

    def _add_index_key''')],
"storing an array of another dtype or shape but as many bytes under a key",
"the old dtype and shape are kept", '''
import numpy as np
from dustgoggles.codex.implements import GridPaper
try:
    pad = GridPaper(PREFIX, create=True)
    for arr in [np.arange(6.), np.arange(6.).reshape(2, 3), np.arange(6),
                np.arange(12, dtype="f4")]:
        pad["x"] = arr
        got = pad["x"]
        assert got.dtype == arr.dtype and got.shape == arr.shape
        assert (got == arr).all()
finally:
    sweep()
''')

bug("c04-flat-copy", "C04", [(CODECS, '''        if copy is True:
            return array.copy(), None
''', '''        if copy is True:
            if array.nbytes > 2**16:
                # don't hold two copies of large arrays
                return array, block
            return array.copy(), None
'''), (IMP, '''            if copy is False:
                self._open_blocks.append(block)
        except''', '''            if block is not None:
                self._open_blocks.append(block)
        except''')], "writing into a copy fetched from a large array",
"large arrays are not copied: writes reach shared memory", '''
import numpy as np
from dustgoggles.codex.implements import GridPaper
try:
    pad = GridPaper(PREFIX, create=True)
    for n in [10, 100000]:
        pad["x"] = np.zeros(n)
        pad["x"][:] = 5
        assert (pad["x"] == 0).all(), n
finally:
    sweep()
''')

bug("c05-one-byte", "C05", [(IMP, '''            nameblock = SharedMemory(self.hash_address(target))
            return int.from_bytes(nameblock.buf.tobytes(), "little")
''', '''            nameblock = SharedMemory(self.hash_address(target))
            return nameblock.buf[0]
''')], "an index of more than 256 keys",
"slots are read modulo 256, so deletions hit another key", '''
from dustgoggles.codex.implements import TagIndex
try:
    index = TagIndex(PREFIX, create=True, no_lockout=True)
    keys = [f"k{i}" for i in range(270)]
    for key in keys:
        index.add(key)
    index.remove("k260")
    keys.remove("k260")
    assert sorted(index.update()) == sorted(keys)
finally:
    sweep()
''')

bug("c05-slot-memo", "C05", [(IMP, '''    def check(self, target) -> Optional[int]:
        if exists_block(self.hash_address(target)):
            nameblock = SharedMemory(self.hash_address(target))
            return int.from_bytes(nameblock.buf.tobytes(), "little")
        return None
''', '''    def check(self, target) -> Optional[int]:
        address = self.hash_address(target)
        if exists_block(address):
            seen = self.__dict__.setdefault("seen", {})
            if address not in seen or seen[address] >= (self.length or 0):
                nameblock = SharedMemory(address)
                seen[address] = int.from_bytes(
                    nameblock.buf.tobytes(), "little")
            return seen[address]
        return None
''')], "two handles: one looks a key up, the other removes an earlier key (so "
"the last one moves), keys are added, the first looks the moved key up",
"a handle remembers the slot of a key that was moved", '''
from dustgoggles.codex.implements import TagIndex
try:
    a = TagIndex(PREFIX, create=True)
    b = TagIndex(PREFIX, create=False)
    for key in "wxyz":
        a.add(key)
    assert [b.check(k) for k in "wxyz"] == [0, 1, 2, 3]
    b.update()
    a.remove("w")
    a.add("v")
    keys = b.update()
    assert all(keys[b.check(k)] == k for k in "vxyz")
finally:
    sweep()
''')

bug("c06-interrupted", "C06", [(IMP, '''    def __exit__(self, exc_type, exc_value, traceback):
        if getattr(self, "debug") is True:
            log(f"{here()},{self.number},entering cleanup")
        self.release()
''', '''    def __exit__(self, exc_type, exc_value, traceback):
        if getattr(self, "debug") is True:
            log(f"{here()},{self.number},entering cleanup")
        if exc_type is None or issubclass(exc_type, Exception):
            self.release()
''')], "KeyboardInterrupt or SystemExit raised in the guarded section",
"the lock is kept forever", '''
from dustgoggles.codex.implements import SlidingLock
try:
    for exc in (ValueError, KeyboardInterrupt, SystemExit):
        try:
            with SlidingLock(PREFIX):
                raise exc
        except exc:
            pass
        left = [p for p in glob.glob(f"/dev/shm/{PREFIX}*")
                if not p.endswith("_count")]
        assert not left, (exc, left)
finally:
    sweep()
''')

bug("c06-timeout-frees", "C06", [(IMP, '''        except Exception as ex:
            if getattr(self, "debug") is True:
                log(f"{here()},{self.number},crashing out: {ex}")
            self.release()
            raise ex
''', '''        except Exception as ex:
            if getattr(self, "debug") is True:
                log(f"{here()},{self.number},crashing out: {ex}")
            self.release()
            # nobody should have to wait for what we gave up on
            for kind in ("lock", "hold"):
                delete_block(f"{self.name}_{kind}", missing_ok=True)
            raise
''')], "a waiter with a spin limit times out while another holds the lock",
"the time-out frees the holder's lock, so a third gets in", '''
from dustgoggles.codex.implements import SlidingLock
try:
    holder = SlidingLock(PREFIX)
    with holder:
        waiter = SlidingLock(PREFIX)
        waiter.max_spins = 5
        try:
            with waiter:
                raise AssertionError("two inside")
        except TimeoutError:
            pass
        assert os.path.exists(f"/dev/shm/{PREFIX}_hold") or not \\
            hasattr(holder, "hold")
    with SlidingLock(PREFIX):
        pass
finally:
    sweep()
''')

bug("c07-metadata-after", "C07", [(IMP, '''        with self.lock_class(self.name, self.debug):
            is_new = self.check(key) is None
            writehead = super()._add(key, exists_ok)
            if value is not None:
                try:
                    self.memorize(value, self.val_address(writehead))
                except Exception:
                    # e.g. value is not serializable
                    if is_new is True:
                        self._delitem(key)
                    raise
            return writehead
''', '''        encoded = None if value is None else self.memorize.keywords[
            "encode"](value)
        with self.lock_class(self.name, self.debug):
            writehead = super()._add(key, exists_ok)
        if value is not None:
            # the slot is ours now
            self.memorize(
                encoded, self.val_address(writehead), encode=bytes)
        return writehead
''')], "another process removes a key between the addition and the writing of "
"the metadata, moving the new key to another slot",
"metadata is attached to the wrong key", '''
import dustgoggles.codex.implements as imp
from dustgoggles.codex.implements import MetaTagIndex
try:
    a = MetaTagIndex(PREFIX, create=True)
    b = MetaTagIndex(PREFIX, create=False)
    for key in "wxy":
        a.add(key, {"for": key})

    class Late(imp.SlidingLock):
        def __exit__(self, *args):
            super().__exit__(*args)
            a.lock_class = imp.SlidingLock
            b.remove("w")
    a.lock_class = Late
    a.add("z", {"for": "z"})
    assert dict(a.items()) == {k: {"for": k} for k in "xyz"}, a.items()
finally:
    sweep()
''')

bug("c07-move-after", "C07", [(IMP, '''        with self.lock_class(self.name, self.debug):
            found_at = self._delitem(target)
            if (
                (found_at == self.length - 1)
                or not exists_block(self.val_address(self.length - 1))
            ):
                delete_block(self.val_address(found_at), True)
            elif exists_block(self.val_address(self.length - 1)):
                valblock = SharedMemory(self.val_address(self.length - 1))
                valbytes = valblock.buf.tobytes()
                moved_block = open_block(
                    self.val_address(found_at), size=len(valbytes), overwrite=True
                )
                moved_block.buf[:] = valbytes
                delete_block(self.val_address(self.length - 1))
        return found_at
''', '''        with self.lock_class(self.name, self.debug):
            found_at = self._delitem(target)
            last = self.length - 1
            valbytes = None
            if found_at != last and exists_block(self.val_address(last)):
                valbytes = fetch_block_bytes(self.val_address(last))
            else:
                delete_block(self.val_address(found_at), True)
        if valbytes is not None:
            moved_block = open_block(
                self.val_address(found_at), size=len(valbytes), overwrite=True
            )
            moved_block.buf[:] = valbytes
            delete_block(self.val_address(last), True)
        return found_at
''')], "another process adds or reads a key between the removal of a key and "
"the moving of the last key's metadata",
"metadata of other keys is overwritten, lost or stale", '''
import dustgoggles.codex.implements as imp
from dustgoggles.codex.implements import MetaTagIndex
try:
    a = MetaTagIndex(PREFIX, create=True)
    b = MetaTagIndex(PREFIX, create=False)
    for key in "wxy":
        a.add(key, {"for": key})

    class Late(imp.SlidingLock):
        def __exit__(self, *args):
            super().__exit__(*args)
            a.lock_class = imp.SlidingLock
            b.add("z", {"for": "z"})
    a.lock_class = Late
    a.remove("w")
    assert dict(a.items()) == {k: {"for": k} for k in "xyz"}, a.items()
finally:
    sweep()
''')

bug("c08-count-of-empty", "C08", [(IMP, '''        self.memory.unlink()
        self.memory.close()
        if exists_block(f"{self.name}_count"):
''', '''        self.memory.unlink()
        self.memory.close()
        if self.cache and exists_block(f"{self.name}_count"):
''')], "closing an index that was emptied before", "its lock's counter is left "
"behind", '''
from dustgoggles.codex.implements import Notepad
try:
    pad = Notepad(PREFIX, create=True)
    pad["a"] = 1
    pad.clear()
    pad.close()
    left = glob.glob(f"/dev/shm/{PREFIX}*")
    assert not left, left
finally:
    sweep()
''')

bug("c08-moved-value", "C08", [(IMP, '''            if (
                (found_at == self.length - 1)
                or not exists_block(self.val_address(self.length - 1))
            ):
                delete_block(self.val_address(found_at), True)
''', '''            if found_at == self.length - 1:
                delete_block(self.val_address(found_at), True)
            elif not exists_block(self.val_address(self.length - 1)):
                block = SharedMemory(self.val_address(found_at)) \\
                    if exists_block(self.val_address(found_at)) else None
                if block is not None:
                    block.buf[:] = b" " * block.size
                    block.buf[:4] = b"null"
''')], "removing a key with metadata while the last key has none",
"the metadata block is not freed (and never will be)", '''
from dustgoggles.codex.implements import MetaTagIndex
try:
    index = MetaTagIndex(PREFIX, create=True)
    index.add("a", {"x": 1})
    index.add("b")
    index.remove("a")
    left = glob.glob(f"/dev/shm/{PREFIX}_val*")
    assert not left, left
finally:
    sweep()
''')

bug("c09-same-object", "C09", [(IMP, '''    def stick(self, obj):
        encoded = self.encode(obj)
''', '''    def stick(self, obj):
        there = exists_block(self.address) and obj is self._cached_value
        encoded = fetch_block_bytes(self.address) if (
            there and isinstance(obj, (list, dict))
        ) else self.encode(obj)
''')], "sticking the same mutable object again after changing it",
"the change never reaches other handles", '''
from dustgoggles.codex.implements import Sticky
try:
    obj = [1]
    note = Sticky.note(obj, PREFIX)
    obj.append(2)
    note.stick(obj)
    assert Sticky(PREFIX).read() == [1, 2]
finally:
    sweep()
''')

bug("c10-gap", "C10", [(COMP, '''        opening = first(
            filter(lambda integer: integer - 1 not in args.keys(), naturals())
        )
        args[opening - 1] = state
''', '''        args[0 if 0 not in args else max(args) + 1] = state
''')], "inserts at positions 0 and 2 but not 1",
"the signal enters last instead of at the first open position", '''
from dustgoggles.composition import Composition
comp = Composition({"a": lambda x, y, z: (x, y, z)})
comp.add_insert("a", 0, "first")
comp.add_insert("a", 2, "third")
assert comp.execute("signal") == ("first", "signal", "third")
''')

bug("c10-cached-order", "C10", [(COMP, '''        state = signal
        for step_name in self.steps.keys():
            state = self._do_step(step_name, state)
            yield state
''', '''        state = signal
        order = self.__dict__.get("_order", ())
        if len(order) != len(self.steps):
            order = self._order = tuple(self.steps)
        for step_name in order:
            if step_name not in self.steps:
                continue
            state = self._do_step(step_name, state)
            yield state
''')], "executing, then reindexing (or deleting one step and adding another), "
"then executing again", "steps that were renamed are skipped", '''
from dustgoggles.composition import Composition
comp = Composition({"a": lambda x: x + 1, "b": lambda x: x * 10})
assert comp.execute(1) == 20
comp.reindex()
assert comp.execute(1) == 20
''')

bug("c11-shared-captures", "C11", [(COMP, '''        self.captures = {step: [None] for step in self.steps}
''', '''        self.captures = dict.fromkeys(self.steps, [None])
''')], "captures of a composition of two or more steps",
"all captures are one list", '''
from dustgoggles.composition import Composition
comp = Composition({"a": lambda x: x + 1, "b": lambda x: x * 10})
comp.add_captures()
comp.execute(1)
assert comp.captures == {"a": [2], "b": [20]}
''')

bug("c11-pipes-last", "C11", [(COMP, '''        for pipe, target, index in buses:
            if target is None:
''', '''        for pipe, target, index in sorted(buses, key=lambda b: b[1] is None):
            if target is None:
''')], "a send with only a pipe attached before one with a target",
"sends are not performed in attachment order", '''
from dustgoggles.composition import Composition
comp, seen = Composition({"a": lambda x: x + 1}), []
comp.add_send("a", pipe=lambda x: seen.append(("pipe", x)))
comp.add_send("a", target=seen)
comp.execute(1)
assert seen == [("pipe", 2), 2]
''')

bug("c12-fresh-exception", "C12", [(COMP, '''            if self.optional is True:
                return None
            raise
''', '''            if self.optional is True:
                return None
            raise type(ex)(*ex.args) from ex
''')], "a failing step, seen by a caller that needs the very exception (its "
"attributes, notes or traceback)", "a copy of the exception is raised", '''
from dustgoggles.composition import Composition
class Odd(Exception):
    pass
exc = Odd("x")
exc.extra = [1]
def fail(_):
    raise exc
try:
    Composition({"a": fail}).execute(1)
except Odd as got:
    assert got is exc
''')

bug("c12-last-step-index", "C12", [(COMP, '''            for step_ix, state in zip(count(), iterpipe):
                pass
            return state
''', '''            for state in iterpipe:
                step_ix += state is not None
            return state
''')], "a step returning None before another step fails, with a tracker",
"the failure record names an earlier step", '''
from pathlib import Path
from dustgoggles.composition import Composition
from dustgoggles.tracker import Tracker
def quiet(_):
    return None
def fail(_):
    raise ValueError("x")
tracker = Tracker(outdir=Path("logs"))
comp = Composition({"a": quiet, "b": fail}, tracker=tracker, optional=True)
comp.execute(1)
assert tracker.history[-1]["target"] == "fail", tracker.history
''')

bug("c13-pause-all", "C13", [(TRK, '''    def _set_paused(self, state: bool):
        self._paused = state
''', '''    def _set_paused(self, state: bool):
        type(self)._paused = state
''')], "two trackers of which one is paused", "pausing one pauses all", '''
from pathlib import Path
from dustgoggles.tracker import Tracker
a, b = Tracker("a", outdir=Path("logs")), Tracker("b", outdir=Path("logs"))
a.paused = True
b.track(len)
b.dump()
assert b.outpath.exists() and not a.outpath.exists()
''')

bug("c13-stale-dump", "C13", [(TRK, '''        log = json.dumps(self.log, indent=2).encode('utf-8')
''', '''        state = len(self.history), self.name
        if self.__dict__.get("_dumped", (None,))[0] != state:
            self._dumped = state, json.dumps(self.log, indent=2)
        log = self._dumped[1].encode('utf-8')
'''), (TRK, '''        self.log["write_timestamp"] = dt.datetime.now().isoformat()
        key_order''', '''        self.log["write_timestamp"] = dt.datetime.now().isoformat(
            timespec="seconds")
        key_order''')], "dump, clear, as many track calls as before, dump",
"the second dump repeats the history of the first", '''
import json
from pathlib import Path
from dustgoggles.tracker import Tracker
a = Tracker("a", outdir=Path("logs"))
a.track(len)
a.dump()
a.clear()
a.track(max)
a.dump()
got = json.loads(a.outpath.read_text())
assert [r["target"] for r in got[0]["history"]] == ["max"], got
''')

bug("c14-optional-call", "C14", [(DYN, '''        if _optional is None:
            _optional = self.optional
''', '''        _optional = _optional or self.optional
''')], "calling an optional Dynamic with _optional=False",
"the error is swallowed although this call is not optional", '''
from dustgoggles.dynamic import Dynamic
dyn = Dynamic("def f(x):\\n    return 1 / x", {}, optional=True)
assert dyn(0) is None
try:
    dyn(0, _optional=False)
except ZeroDivisionError:
    pass
else:
    raise AssertionError
''')

bug("c14-globals-copy", "C14", [(DYN, '''    globals_ = globals_ if globals_ is not None else globals()
    return FunctionType(code, globals_)
''', '''    globals_ = dict(globals_) if globals_ is not None else globals()
    return FunctionType(code, globals_)
''')], "globals changed after loading (by the caller or by the function)",
"the function works on a snapshot of its globals", '''
from dustgoggles.dynamic import Dynamic
space = {"n": 1}
dyn = Dynamic("def f():\\n    global m\\n    m = n\\n    return n", space)
assert dyn() == 1 and space["m"] == 1
space["n"] = 2
assert dyn() == 2
''')

bug("c15-base-exceptions", "C15", [(FUNC, '''        except KeyboardInterrupt:
            raise
        except Exception as e:
            exc_callback(e)
    return optionally''', '''        except (KeyboardInterrupt, SystemExit):
            raise
        except BaseException as e:
            exc_callback(e)
    return optionally''')], "GeneratorExit, CancelledError or a direct subclass "
"of BaseException", "exits other than the two usual ones are swallowed", '''
import asyncio
from dustgoggles.func import optionalize
class Stop(BaseException):
    pass
for exc in (GeneratorExit, asyncio.CancelledError, Stop, SystemExit):
    def fail():
        raise exc
    try:
        optionalize(fail)()
    except exc:
        continue
    raise AssertionError(exc)
''')

bug("c15-distinct-reports", "C15", [(DYN, '''        target.append(exc_report(exc) | {'func': func, 'category': 'call'})
''', '''        report = exc_report(exc) | {'func': func, 'category': 'call'}
        if report not in target:
            target.append(report)
''')], "the same failure twice", "the second failure is not reported", '''
from dustgoggles.dynamic import dontcare
def fail():
    raise ValueError("x")
got = []
quiet = dontcare(fail, got)
for _ in range(3):
    quiet()
assert len(got) == 3
''')

bug("c15-repeated-frames", "C15", [(DYN, '''        tb = tb.tb_next
    return report
''', '''        lineno, tb = tb.tb_lineno, tb.tb_next
        while tb is not None and tb.tb_lineno == lineno and (
            tb.tb_frame.f_code.co_filename == report['filename'][-1]
        ):
            # recursion
            tb = tb.tb_next
    return report
''')], "an exception raised within recursion", "repeated frames are left out",
'''
import traceback
from dustgoggles.dynamic import exc_report
def down(n):
    if n == 0:
        raise ValueError
    return down(n - 1)
try:
    down(5)
except ValueError as exc:
    got = exc_report(exc)
    assert got["lineno"] == [f.lineno for f in
                             traceback.extract_tb(exc.__traceback__)]
''')

bug("c16-truthy", "C16", [(STR, '''    level_items = [(k, v) for k, v in mapping.items() if predicate(k, v)]
''', '''    level_items = [
        (k, v) for k, v in mapping.items() if predicate(k, v) is True
    ]
''')], "a predicate that returns a truthy value other than True",
"matches of such predicates are missed", '''
import re
from dustgoggles.structures import dig_for_values
got = dig_for_values({"ab": 1, "c": {"abc": 2}},
                     lambda k, v: re.match("ab", k))
assert got == [1, 2]
''')

bug("c16-last-branch", "C16", [(STR, '''    if nests:
        level_items += reduce(
            add, [dig_for_all(nest, predicate, mtypes) for nest in nests]
        )
    return level_items
''', '''    for nest in nests:
        level_items += [
            item for item in dig_for_all(nest, predicate, mtypes)
            if not any(item is seen for seen in level_items)
            and item not in level_items
        ]
    return level_items
''')], "equal entries in different branches", "equal entries are found once", '''
from dustgoggles.structures import dig_for_values
assert dig_for_values({"x": {"a": 1}, "y": {"a": 1}}, "a") == [1, 1]
''')

bug("c17-any-branch", "C17", [(STR, '''        if all([isinstance(value, Mapping) for value in mapping.values()]):
            branch''', '''        if isinstance(next(iter(mapping.values()), {}), Mapping):
            branch''')], "an innermost mapping whose first field is a mapping "
"and whose others are not", "it is treated as a further level", '''
from dustgoggles.structures import to_records
got = to_records({"x": {"m": {}, "a": 1}}, level_names=iter(["one", "two"]))
assert got == [{"m": {}, "a": 1, "one": "x"}], got
''')

bug("c17-equal-values", "C17", [(STR, '''        if kv[0] in only_in_one:
            output[kv[0]] = kv[1]
''', '''        if kv[0] in only_in_one or map1[kv[0]] == map2[kv[0]]:
            output.setdefault(*kv)
''')], "a key in both mappings with equal but not identical values",
"the first's value is taken (True for 1, 1 for 1.0)", '''
from dustgoggles.structures import rmerge
got = rmerge({"a": True, "b": {"c": 1}}, {"a": 1, "b": {"c": 1.0}})
assert type(got["a"]) is int and type(got["b"]["c"]) is float, got
''')

bug("c17-plain-parents", "C17", [(STR, '''    for nest in [v for v in mapping.values() if isinstance(v, mtypes)]:
        dig_and_edit(nest, filter_func, setter_func, mtypes)
    return mapping
''', '''    seen = []
    for nest in [v for v in mapping.values() if isinstance(v, mtypes)]:
        if nest not in seen:
            seen.append(nest)
            dig_and_edit(nest, filter_func, setter_func, mtypes)
    return mapping
''')], "two equal branches at one level of a nesting dict",
"the second is not converted", '''
from dustgoggles.structures import NestingDict
nest = NestingDict()
nest["a"]["x"]["y"] = 1
nest["b"]["x"]["y"] = 1
got = nest.todict()
assert type(got["a"]["x"]) is dict and type(got["b"]["x"]) is dict
''')

bug("c18-accumulate", "C18", [(STR, '''            self.chunked = False
            self.results = {
                rec['key']''', '''            self.chunked = False
            self.results = self.results | {
                rec['key']''')], "a pool used for a second, unchunked map",
"results of the first are still there", '''
from dustgoggles.structures import MaybePool
pool = MaybePool()
pool.map(abs, [{"args": (-1,)}, {"args": (-2,)}])
assert pool.get() == {0: 1, 1: 2}
pool.map(abs, [{"args": (-3,), "key": "x"}])
assert pool.get() == {"x": 3}
''')

bug("c18-serial-terminate", "C18", [(STR, '''        if self.pool is not None:
            self.pool.terminate()
        self.results = {}
''', '''        if self.pool is None:
            return
        self.pool.terminate()
        self.results = {}
''')], "terminating a pool without workers", "it keeps its results", '''
from dustgoggles.structures import MaybePool
pool = MaybePool()
pool.map(abs, [{"args": (-1,)}])
pool.terminate()
assert pool.get() == {} and pool.n_results == 0
''')

bug("c18-shared-kwargs", "C18", [(STR, '''        for i, rec in enumerate(argrecs):
            rec['key'] = rec.get('key', i)
            rec['args'] = rec.get('args', ())
            rec['kwargs'] = rec.get('kwargs', {})
''', '''        none = {}
        for i, rec in enumerate(argrecs):
            rec['key'] = rec.get('key', i)
            rec['args'] = rec.get('args', ())
            rec['kwargs'] = rec.get('kwargs') or none
            none = rec['kwargs']
''')], "a record with keyword arguments followed by one without",
"the keyword arguments are passed on to the next record", '''
from dustgoggles.structures import map_into_pool
got = map_into_pool(dict, [{"kwargs": {"a": 1}}, {}, {"kwargs": {"b": 2}}])
assert got == {0: {"a": 1}, 1: {}, 2: {"b": 2}}, got
''')

bug("c19-dedupe", "C19", [(FUNC, '''        [file for file in this_set if file not in shared] for this_set in sets
''', '''        list(dict.fromkeys(f for f in this_set if f not in shared))
        for this_set in sets
''')], "repeated elements in one of the iterables",
"repeated elements are listed once", '''
from dustgoggles.func import disjoint
assert disjoint([1, 2, 2, 3], [3, 4]) == [[1, 2, 2], [4]]
''')

bug("c19-null-element", "C19", [(STR, '''            return default
    return level
''', '''            return default
    return default if level is None else level
''')], "a path that leads to None, with a default given",
"the default is returned although the element exists", '''
from dustgoggles.structures import get_from
assert get_from({"a": {"b": None}}, ("a", "b"), 5) is None
assert get_from({"a": {"b": None}}, ("a", "c"), 5) == 5
''')

bug("c20-one-sided", "C20", [(PIV, '''        offsets = np.abs(arr_nzero - recast)
''', '''        offsets = arr_nzero - recast
'''), (PIV, '''        if (aerr := float(np.nanmax(np.abs(offsets)))) > atol:
''', '''        if (aerr := float(np.nanmax(offsets))) > atol:
''')], "elements that grow when recast, with a wide relative tolerance",
"only elements that shrink are held to the absolute tolerance", '''
import numpy as np
from dustgoggles.pivot import downcast
arr = np.array([-1.4, -2.3, -3.45] )
got = downcast(arr, atol=0.1, rtol=1)["recast"]
assert np.abs(got - arr).max() <= 0.1, got
''')

bug("c20-truncated-bounds", "C20", [(PIV, '''        return bool(amin >= info.min and amax <= info.max)
    except TypeError:  # just too big!
''', '''        if dt.kind in 'iu':
            return info.min <= int(amin) and int(amax) <= info.max
        return amin >= info.min and amax <= info.max
    except (TypeError, ValueError, OverflowError):  # just too big!
''')], "extremes within one unit outside of an integer type's bounds",
"a range such as -0.5 to 255.5 is said to fit", '''
import numpy as np
from dustgoggles.pivot import check_in_dtype_bounds as fits
assert not fits(-0.5, 3, np.dtype("u1")) and not fits(0, 255.5, np.dtype("u1"))
assert fits(0.0, 255.0, np.dtype("u1"))
''')

bug("c21-by-label", "C21", [(PIV, '''        for i, (_, series) in enumerate(getattr(df, method)()):
            series = series if dropna is False else series.dropna()
            if (len(series) == 0) or (series == series.iloc[0]).all():
                constant_indices.iloc[i] = True
''', '''        for label, series in getattr(df, method)():
            series = series if dropna is False else series.dropna()
            if len(series) == 0 or (series == series.iloc[0]).all():
                constant_indices.loc[label] = True
''')], "two columns (or rows) of one name of which one is constant",
"both are taken for constant", '''
import pandas as pd
from dustgoggles.pivot import extract_constants
df = pd.DataFrame([[1, 2], [1, 3]], columns=["a", "a"])
constants, rest = extract_constants(df, to_dict=False, drop_constants=True)
assert rest.iloc[:, 0].tolist() == [2, 3] and constants.shape == (2, 1)
''')

bug("c22-ragged", "C22", [(PIV, '''    df = pd.DataFrame(dropped.tolist(), index=dropped.index)
    df.columns''', '''    df = pd.DataFrame(
        dict(enumerate(zip(*dropped))), index=dropped.index
    )
    df.columns''')], "rows with lists of different lengths",
"everything beyond the shortest list is lost", '''
import pandas as pd
from dustgoggles.pivot import unpack
got = unpack(pd.Series([[1, 2], [3]], name="a"))
assert list(got.columns) == ["a_0", "a_1"] and got.iloc[0, 1] == 2
''')

bug("c22-one-column-sets", "C22", [(PIV, '''    return getattr(set(keys1), set_method)(set(keys2))
''', '''    larger, smaller = sorted((keys1, keys2), key=len, reverse=True)
    return getattr(set(larger), set_method)(set(smaller))
''')], "a difference (or subset test) whose first frame has fewer distinct tuples",
"the difference is taken the other way round", '''
import pandas as pd
from dustgoggles.pivot import junction
a, b = pd.DataFrame({"x": [1]}), pd.DataFrame({"x": [1, 2]})
assert junction(a, b, ["x"]) == set() and junction(b, a, ["x"]) == {(2,)}
''')

bug("c23-equal-maximum", "C23", [(MOS, '''        elif not ((rec["min"] > bounds[1]) or (rec["max"] < bounds[0])):
            bound_records.append(rec)
    if verbose''', '''        elif not (rec["min"] > bounds[1]):
            if rec["max"] > bounds[0] or rec["min"] == rec["max"]:
                bound_records.append(rec)
    if verbose''')], "a row group whose largest value is just the lower bound "
"of a window", "those rows are lost", '''
import pyarrow as pa, pyarrow.parquet as pq
from dustgoggles.mosaic import read_between, parquet_metadata_records
pq.write_table(pa.table({"x": [1, 2, 5, 5, 6, 9]}), "a.parquet",
               row_group_size=3)
got = read_between(pq.ParquetFile("a.parquet"), "x", (5, 6),
                   parquet_metadata_records("a.parquet"), verbose=False)
assert got["x"].to_pylist() == [5, 5], got["x"]
''')

bug("c24-two-groups", "C24", [(MOS, '''    if meta_df["path_in_schema"].duplicated().any():
        meta_df = _flatten_meta_df(meta_df, extended)
''', '''    if meta_df["path_in_schema"].duplicated(keep=False).all():
        meta_df = _flatten_meta_df(
            meta_df.drop_duplicates(
                [c for c in meta_df if c not in (
                    "row_group", "file_offset", "data_page_offset",
                    "dictionary_page_offset", "encodings", "min", "max")]
            ), extended
        )
''')], "two row groups with the same counts and sizes",
"one of them is left out of the totals", '''
import pyarrow as pa, pyarrow.parquet as pq
from dustgoggles.mosaic import meta_column_df
pq.write_table(pa.table({"x": list(range(40))}), "a.parquet",
               row_group_size=10, use_dictionary=False)
assert meta_column_df("a.parquet").loc["num_values", "x"] == 40
''')

bug("c25-stripped", "C25", [(SCR, '''            return result.group(1)

    return scrape''', '''            return result.group(1).strip()

    return scrape''')], "a captured text that is no literal and begins or ends "
"with white space", "the text is returned stripped", '''
from dustgoggles.scrape import make_scraper
assert make_scraper("name = MSL rover \\nx")(r"name =(.*)") == " MSL rover "
''')

bug("c25-repeated-files", "C25", [(SCR, '''    for file in files:
        metaframe.append(pattern_scraper(file))
''', '''    for file in dict.fromkeys(files):
        metaframe.append(pattern_scraper(file))
''')], "a file listed twice", "it gets one result", '''
from dustgoggles.scrape import bulk_scrape_metadata
assert bulk_scrape_metadata(["a", "b", "a"], lambda f: {"f": f}) == [
    {"f": "a"}, {"f": "b"}, {"f": "a"}]
''')

bug("c25-supplement", "C25", [(SCR, '''        metadata |= supplemental_search_function(label, label_text)
''', '''        supplement = supplemental_search_function(label, label_text)
        metadata |= {k: v for k, v in supplement.items() if v is not None}
''')], "a supplemental search that overrides a field with None",
"the scraped value wins", '''
from dustgoggles.scrape import scrape_patterns
got = scrape_patterns("x", {"a": r"a=(\\d)"}, lambda *_: {"a": None, "b": None},
                      label_loader=lambda _: "a=5")
assert got == {"a": None, "b": None}
''')

bug("c26-unnamed", "C26", [(MEM, '''    def fix_register(name, rtype):
        if rtype == "shared_memory":
            return
''', '''    def fix_register(name, rtype):
        if rtype == "shared_memory" and not name.startswith("/psm_"):
            return
''')], "blocks created without a name of their own",
"they are still tracked and vanish with their process", '''
import subprocess
code = """
from dustgoggles.codex.memutilz import deactivate_shared_memory_resource_tracker
from multiprocessing.shared_memory import SharedMemory
deactivate_shared_memory_resource_tracker()
block = SharedMemory(create=True, size=4)
block.buf[:] = b'here'
print(block.name)
"""
got = subprocess.run([sys.executable, "-c", code], capture_output=True,
                     text=True)
path = "/dev/shm/" + got.stdout.strip()
assert len(path) > 12, got
assert os.path.exists(path) and not got.stderr, got.stderr
os.unlink(path)
''')

