CODECS, MEM, IMP = "codex/codecs.py", "codex/memutilz.py", "codex/implements.py"
COMP, TRK, DYN = "composition.py", "tracker.py", "dynamic.py"
STR, FUNC, PIV = "structures.py", "func.py", "pivot.py"
MOS, SCR = "mosaic.py", "scrape.py"


bug("c25-characters", "C25", [(SCR, '''    with open(label, "rb") as file:
        return file.read(byte_size).decode()
''', '''    with open(label, encoding="utf-8", newline="") as file:
        return file.read(byte_size)
''')], "a label with text outside of ASCII that is longer than the size limit",
"the limit counts characters, so more than the leading bytes are returned", '''
from dustgoggles.scrape import get_label_text
Path("label").write_text("é" * 30)
assert get_label_text(Path("label"), 40) == "é" * 20
Path("plain").write_bytes(b"a\\r\\n" * 30)
assert get_label_text(Path("plain"), 40) == ("a\\r\\n" * 30)[:40]
''')

bug("c15-lenient-callback", "C15", [(FUNC, '''        except Exception as e:
            exc_callback(e)
''', '''        except Exception as e:
            try:
                exc_callback(e)
            except TypeError:
                # callbacks that take no arguments
                exc_callback()
''')], "a callback that can be called without argument and raises a TypeError of its own",
"the callback is called a second time, without the exception", '''
from dustgoggles.func import optionalize
seen = []

def callback(exc=None):
    seen.append(exc)
    len(exc)
try:
    optionalize(lambda: 1 / 0, callback)()
except TypeError:
    pass
assert len(seen) == 1 and isinstance(seen[0], ZeroDivisionError), seen
seen = []
assert optionalize(lambda: 1 / 0, seen.append)() is None
assert len(seen) == 1
''')

bug("c08-unlocked-closer", "C08", [(IMP, '''        if exists_block(f"{self.name}_count"):
            block''', '''        if (
            self.lock_class is not FakeLock
            and exists_block(f"{self.name}_count")
        ):
            block''')], "an index used through one handle with and another "
"without locking, closed by the latter",
"the lock's counter block outlives the index", '''
from dustgoggles.codex.implements import TagIndex
try:
    one = TagIndex(PREFIX)
    two = TagIndex(PREFIX, create=False, no_lockout=True)
    one.add("a")
    two.add("b")
    two.close()
    assert glob.glob(f"/dev/shm/{PREFIX}*") == []
finally:
    sweep()
''')

bug("c03-trimmed-key", "C03", [(IMP, '''    def address(self, key):
        return f"{self.prefix}_{key}"
''', '''    def address(self, key):
        return f"{self.prefix}_{key}".rstrip()
''')], "two keys that differ in trailing white space only",
"they share a block", '''
from dustgoggles.codex.implements import Notepad
try:
    pad = Notepad(PREFIX, create=True)
    pad["a"] = 1
    pad["a "] = 2
    assert pad["a"] == 1 and pad["a "] == 2
finally:
    sweep()
''')

bug("c09-pull-cached", "C09", [(IMP, '''        try:
            block = SharedMemory(self.address)
        except FileNotFoundError:
            return None
        stream = block.buf.tobytes()
''', '''        try:
            block = SharedMemory(self.address)
        except FileNotFoundError:
            return self._cached_value
        stream = block.buf.tobytes()
''')], "a handle that has read an object, told to reread after it was pulled",
"the object that was pulled is returned instead of None", '''
from dustgoggles.codex.implements import Sticky
try:
    note = Sticky.note(5, PREFIX)
    other = Sticky(PREFIX)
    assert other.read() == 5
    note.pull()
    assert other.read(reread=True) is None
finally:
    sweep()
''')

bug("c11-numeric-slot", "C11", [(COMP, '''            if pointer is None:
                target.append(thing)
''', '''            if not pointer and len(target) == 0:
                target.append(thing)
            elif pointer is None:
                target.append(thing)
''')], "a send to slot 0 of a list that has been emptied",
"the output is appended where there is no such slot (IndexError before)", '''
from dustgoggles.composition import Composition
out = []
comp = Composition([abs])
comp.add_send(0, target=out, pointer=0)
try:
    comp.execute(-1)
except IndexError:
    pass
assert out == [], out
''')

bug("c16-edit-new-nests", "C16", [(STR, '''    matches = tuple(filter(splat(filter_func), mapping.items()))
    for key, value in matches:
        mapping[key] = setter_func(key, value)
    for nest in [v for v in mapping.values() if isinstance(v, mtypes)]:
''', '''    matches = tuple(filter(splat(filter_func), mapping.items()))
    nests = [v for v in mapping.values() if isinstance(v, mtypes)]
    for key, value in matches:
        mapping[key] = setter_func(key, value)
    for nest in nests:
''')], "a setter that returns a mapping with matching entries of its own, e.g. a copy of a nest",
"the entries below replaced nests are edited in what was replaced", '''
from dustgoggles.structures import NestingDict
nest = NestingDict()
nest["a"]["b"]["c"] = 1
got = nest.todict()
assert type(got["a"]) is dict and type(got["a"]["b"]) is dict, type(got["a"]["b"])
''')

bug("c18-late-key", "C18", [(STR, '''            rec['key'] = rec.get('key', i)
''', '''            rec['key'] = rec.get('key') if rec.get('key') is not None else i
''')], "a record whose key is None", "its result is stored under its position", '''
from dustgoggles.structures import map_into_pool
assert map_into_pool(abs, [{"key": None, "args": (-1,)}]) == {None: 1}
''')
