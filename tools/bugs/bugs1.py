CODECS, MEM, IMP = "codex/codecs.py", "codex/memutilz.py", "codex/implements.py"

bug("c01-pickler-memo", "C01", [(CODECS, '''    def encode(value: Any) -> bytes:
        """return bytestring of json serialization of `value`"""
        return json.dumps(value).encode()
''', '''    def encode(value: Any) -> bytes:
        """return bytestring of json serialization of `value`"""
        return json.dumps(value, ensure_ascii=False).encode(
            "utf-8", "replace"
        )
''')], "a text holding a lone surrogate, in the JSON codec",
"lone surrogates are silently replaced by question marks", '''
from dustgoggles.codex.codecs import json_codec_factory
encode, decode = json_codec_factory()
for value in ["a\\ud800b", {"k\\udfff": ["\\ud83d"]}, "é\\x00日本"]:
    assert decode(encode(value)) == value, ascii(value)
''')

0 and bug("c01-shared-pickler0", "C01", [(CODECS, '''    def encode(value: Any) -> bytes:
        return pickle.dumps(value, protocol=pickle.HIGHEST_PROTOCOL)
''', '''    buffer = io.BytesIO()
    pickler = pickle.Pickler(buffer, protocol=pickle.HIGHEST_PROTOCOL)

    def encode(value: Any) -> bytes:
        buffer.seek(0)
        buffer.truncate()
        pickler.dump(value)
        return buffer.getvalue()
'''), (CODECS, "import ast\nimport json\n", "import ast\nimport io\nimport json\n")],
"the same object (or a part of it) encoded twice by one codec",
"the pickler remembers objects between calls and emits references to them", '''
from dustgoggles.codex.codecs import pickle_codec_factory
encode, decode = pickle_codec_factory()
part = [1, 2, "x" * 10]
for value in [part, {"a": part}, (part, 5), part]:
    assert decode(encode(value)) == value
''')

bug("c02-reuse-block", "C02", [(CODECS, '''        block = open_block(address, size, True, True)
        block.buf[:] = encoded
        return address
''', '''        block = open_block(address, size, True)
        if block.size < size:
            block = open_block(address, size, True, True)
        block.buf[:size] = encoded
        return address
''')], "a shorter object saved over a longer one, read raw or with a codec that "
"does not ignore trailing bytes", "the tail of the old object stays behind", '''
from functools import partial
from dustgoggles.codex.codecs import *
from dustgoggles.codex.memutilz import fetch_block_bytes
encode, decode = json_codec_factory()
memorize, remember = generic_mnemonic_factory()
try:
    memorize(list(range(50)), PREFIX, True, encode)
    memorize([1], PREFIX, True, encode)
    assert fetch_block_bytes(PREFIX) == b"[1]"
    assert remember(PREFIX, decode=decode) == [1]
finally:
    sweep()
''')

bug("c02-strip-nulls", "C02", [(MEM, '''    block = SharedMemory(address)
    return block.buf.tobytes()
''', '''    block = SharedMemory(address)
    # some platforms round the size of the block up to a whole page
    return block.buf.tobytes().rstrip(b"\\x00") or bytes(block.size)
''')], "encoded bytes that end in a null byte",
"trailing null bytes of what was saved are lost", '''
from dustgoggles.codex.codecs import generic_mnemonic_factory
memorize, remember = generic_mnemonic_factory()
try:
    for blob in (b"abc", b"abc\\x00\\x00", b"\\x00", b"\\x00\\x00", b"a\\x00b"):
        memorize(blob, PREFIX, True, bytes)
        assert remember(PREFIX, True, bytes) == blob, blob
finally:
    sweep()
''')

bug("c02-refuse-late", "C02", [(CODECS, '''        if (exists_ok is False) and exists_block(address):
            raise FileExistsError
        encoded = encode(value)
        size = len(encoded)
        block = open_block(address, size, True, True)
''', '''        encoded = encode(value)
        size = len(encoded)
        block = open_block(address, size, True, exists_ok)
        if (exists_ok is False) and block.size != size:
            # somebody else's
            raise FileExistsError
''')], "a save with overwriting refused of an object of the same encoded size "
"as the one that is there",
"the refusal relies on the sizes of the two objects differing", '''
from dustgoggles.codex.codecs import generic_mnemonic_factory
memorize, remember = generic_mnemonic_factory()
try:
    memorize(b"first", PREFIX, False, bytes)
    for other in (b"other", b"another", b"x"):
        try:
            memorize(other, PREFIX, False, bytes)
        except FileExistsError:
            pass
        else:
            raise SystemExit(f"{other} was saved")
        assert remember(PREFIX, True, bytes) == b"first"
finally:
    sweep()
''')

bug("c03-clear-cached", "C03", [(IMP, '''            del self[key]
            self.index.close()
        except AttributeError:
            pass
        atexit.unregister(self.close)

    def clear(self):
        for key in self.update_index():
            del self[key]

    def __str__(self):
        return f"{self''', '''            del self[key]
            self.index.close()
        except AttributeError:
            pass
        atexit.unregister(self.close)

    def clear(self):
        for key in tuple(self.index.cache) or self.update_index():
            del self[key]

    def __str__(self):
        return f"{self''')], "a handle that has listed its keys before another one "
"sets or deletes some, and is then cleared",
"clear works on the keys the handle saw last", '')

bug("c03-none-default", "C03", [(IMP, '''        try:
            return self.__getitem__(key, fetch)
        except KeyError:
            return default

    def __setitem__(self, key, value, meta=None''', '''        try:
            value = self.__getitem__(key, fetch)
        except KeyError:
            value = None
        return default if value is None else value

    def __setitem__(self, key, value, meta=None''')],
"a stored None looked up with get() and a default",
"get() gives the default for a key whose value is None", '''
from dustgoggles.codex.implements import Notepad
try:
    pad = Notepad(PREFIX, create=True)
    pad["a"] = None
    assert pad["a"] is None and pad.get("a", 5) is None
    assert pad.get("b", 5) == 5
finally:
    sweep()
''')

bug("c03-reserved-index", "C03", [(IMP, '''    def __setitem__(self, key, value, meta=None, exists_ok: bool = True):
        if isinstance(key, str) and key.startswith("index"):
            raise KeyError("'index' is a reserved key prefix")
''', '''    def __setitem__(self, key, value, meta=None, exists_ok: bool = True):
        if isinstance(key, str) and key.startswith("index_"):
            raise KeyError("'index' is a reserved key prefix")
''')], "a key that starts with 'index' but not 'index_'",
"such keys can be set; the one called 'index' replaces the notepad's index", '''
from dustgoggles.codex.implements import Notepad
try:
    pad = Notepad(PREFIX, create=True)
    pad["a"] = 1
    for key in ("index", "index_a", "indexes", "index2"):
        try:
            pad[key] = 2
        except KeyError:
            pass
        else:
            raise SystemExit(f"{key} was set")
    assert list(pad.keys()) == ["a"]
finally:
    sweep()
''')

bug("c04-memory-order", "C04", [(CODECS, '''        shared_array = np.ndarray(
            array.shape, dtype=array.dtype, buffer=block.buf
        )
        shared_array[...] = array
''', '''        block.buf[:array.nbytes] = array.tobytes(order="A")
''')], "an array in Fortran order (a transposed one, say)",
"the elements of Fortran-ordered arrays are stored in the wrong order", '''
import numpy as np
from dustgoggles.codex.implements import GridPaper
try:
    paper = GridPaper(PREFIX, create=True)
    for a in (np.arange(6).reshape(2, 3), np.arange(6).reshape(2, 3).T,
              np.asfortranarray(np.arange(24.).reshape(2, 3, 4)),
              np.arange(10)[::2]):
        paper["a"] = a
        got = paper["a"]
        assert got.shape == a.shape and (got == a).all()
finally:
    sweep()
''')

bug("c04-native-order", "C04", [(CODECS, '''            "dtype": array.dtype.str,
''', '''            "dtype": array.dtype.str.replace(">", "="),
'''), (CODECS, '''        shared_array = np.ndarray(
            array.shape, dtype=array.dtype, buffer=block.buf
        )
''', '''        shared_array = np.ndarray(
            array.shape, dtype=array.dtype.newbyteorder("="), buffer=block.buf
        )
''')], "an array of big-endian numbers or text",
"arrays come back in native byte order, that is, with another dtype and other bytes", '''
import numpy as np
from dustgoggles.codex.implements import GridPaper
try:
    paper = GridPaper(PREFIX, create=True)
    for dtype in ("<i4", ">i4", ">f8", "u1", ">U3", "S4", ">M8[s]"):
        a = np.array([1, 2, 3]).astype(dtype)
        paper["a"] = a
        got = paper["a"]
        assert got.dtype == a.dtype and got.tobytes() == a.tobytes(), dtype
finally:
    sweep()
''')

bug("c04-close-views", "C04", [(IMP, '''            delete_block(self.address(key))
            self.index.remove(key)
        except FileNotFoundError:
            raise KeyError(f"{key} not apparently assigned")

    def close(self, dump=False):
        for key''', '''            self.index.remove(key)
            for block in self._open_blocks:
                if block.name == self.address(key):
                    block.close()
            delete_block(self.address(key))
        except FileNotFoundError:
            raise KeyError(f"{key} not apparently assigned")

    def close(self, dump=False):
        for key''')], "a key that was fetched as a live view (which is still in use) and is then deleted",
"deleting the key unmaps the memory of the view, so that using it crashes", '''
import numpy as np
from dustgoggles.codex.implements import GridPaper
try:
    paper = GridPaper(PREFIX, create=True)
    paper["a"] = np.arange(5)
    paper["b"] = np.arange(3)
    view = paper.get("a", copy=False)
    del paper["a"]
    assert "a" not in paper.keys() and paper.get("a") is None
    assert list(paper.keys()) == ["b"]
    paper["a"] = np.arange(2)
    assert list(paper["a"]) == [0, 1] and list(view) == [0, 1, 2, 3, 4]
except BufferError as ex:
    raise SystemExit(f"{ex}")
finally:
    sweep()
    sys.stdout.flush()
''')

bug("c05-falsy-metadata", "C05", [(IMP, '''            writehead = super()._add(key, exists_ok)
            if value is not None:
''', '''            writehead = super()._add(key, exists_ok)
            if value:
''')], "a key whose metadata is replaced by (or is) something empty or zero",
"metadata that are falsy are not stored, so that the old ones stay", '''
from dustgoggles.codex.implements import MetaTagIndex
try:
    index = MetaTagIndex(PREFIX, create=True)
    index.add("a", {"x": 1})
    index.add("a", {})
    index.add("b", 0)
    assert index.items() == [("a", {}), ("b", 0)], index.items()
finally:
    sweep()
''')

bug("c05-inherit-metadata", "C05", [(IMP, '''            if (
                (found_at == self.length - 1)
                or not exists_block(self.val_address(self.length - 1))
            ):
                delete_block(self.val_address(found_at), True)
            elif exists_block''', '''            if found_at == self.length - 1:
                delete_block(self.val_address(found_at), True)
            elif exists_block''')], "a key with metadata removed while the last key of the index has none",
"the key that moves into the freed slot takes over the removed key's metadata", '''
from dustgoggles.codex.implements import MetaTagIndex
try:
    index = MetaTagIndex(PREFIX, create=True)
    index.add("a", {"x": 1})
    index.add("b", [2])
    index.add("c")
    index.remove("a")
    assert sorted(index.items(), key=str) == [("b", [2]), ("c", None)], index.items()
finally:
    sweep()
''')

bug("c05-short-hash", "C05", [(IMP, '''        namehash = HASHER(key).hexdigest()
''', '''        namehash = HASHER(key).hexdigest()[:8]
''')], "two keys whose SHA-256 digests agree in their first 32 bits, in one index",
"one of the two keys is taken for the other", '''
from hashlib import sha256
from dustgoggles.codex.implements import TagIndex
seen, i = {}, 0
while True:
    h = sha256(str(i).encode()).hexdigest()[:8]
    if h in seen:
        break
    seen[h] = i
    i += 1
pair = [str(seen[h]), str(i)]
try:
    index = TagIndex(PREFIX, create=True)
    for key in pair:
        index.add(key)
    assert sorted(index.update()) == sorted(pair)
    index.remove(pair[0])
    assert index.update() == pair[1:] and index.check(pair[1]) == 0
finally:
    sweep()
''')

bug("c06-timeout-keeps-place", "C06", [(IMP, '''                log(f"{here()},{self.number},crashing out: {ex}")
            self.release()
            raise ex
''', '''                log(f"{here()},{self.number},crashing out: {ex}")
                self.release()
            raise ex
''')], "a waiter that gives up at its spin limit",
"the waiter leaves its place in the queue behind, and all who come later wait for it forever", '''
import threading
from dustgoggles.codex.implements import SlidingLock
try:
    holder, waiter = SlidingLock(PREFIX), SlidingLock(PREFIX)
    waiter.max_spins = 5
    with holder:
        try:
            with waiter:
                raise SystemExit("not excluded")
        except TimeoutError:
            pass
    done = []

    def later():
        with SlidingLock(PREFIX):
            done.append(1)
    thread = threading.Thread(target=later, daemon=True)
    thread.start()
    thread.join(20)
    if not done:
        sweep()
        os._exit(1)
finally:
    sweep()
''')

bug("c06-reused-lock", "C06", [(IMP, '''                log(f"{here()},{self.number},released {thing}")
        self.acquired = False
''', '''                log(f"{here()},{self.number},released {thing}")
''')], "a lock object that is used a second time while somebody else is inside",
"a lock object that has been used once enters without waiting", '''
from dustgoggles.codex.implements import SlidingLock
try:
    one, two = SlidingLock(PREFIX), SlidingLock(PREFIX)
    with one:
        pass
    one.max_spins = 5
    with two:
        try:
            with one:
                raise SystemExit("both inside")
        except TimeoutError:
            pass
finally:
    sweep()
''')

bug("c06-short-counter", "C06", [(IMP, '''        self.count = open_block(f"{self.name}_count", 5)
''', '''        self.count = open_block(f"{self.name}_count", 2)
'''), (IMP, '''            self.count.buf[:] = self.number.to_bytes(5, "little")
''', '''            self.count.buf[:] = self.number.to_bytes(2, "little")
''')], "65536 acquisitions of one lock", "the lock's counter overflows, and the lock can no longer be released", '''
from dustgoggles.codex.implements import SlidingLock
try:
    lock = SlidingLock(PREFIX)
    for _ in range(66000):
        with lock:
            pass
finally:
    sweep()
''')
BUGS["c03-clear-cached"] = BUGS["c03-clear-cached"][:4] + ('''
from dustgoggles.codex.implements import Notepad
try:
    one = Notepad(PREFIX, create=True)
    two = Notepad(PREFIX)
    one["a"] = 1
    assert one.keys() == ["a"]
    two["b"] = 2
    one.clear()
    assert two.keys() == [] and two.get("b") is None, two.keys()
finally:
    sweep()
''',)
# rename
BUGS["c01-surrogates"] = BUGS.pop("c01-pickler-memo")
