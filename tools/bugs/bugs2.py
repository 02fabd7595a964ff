CODECS, MEM, IMP = "codex/codecs.py", "codex/memutilz.py", "codex/implements.py"

bug("c07-check-outside", "C07", [(IMP, '''        if value is not None:
            raise ValueError("TagIndex does not support value-setting.")
        with self.lock_class(self.name, self.debug):
            return self._add(key, exists_ok)
''', '''        if value is not None:
            raise ValueError("TagIndex does not support value-setting.")
        # most keys are there already: no need to wait for the lock
        found_at = self.check(key)
        if found_at is not None:
            if exists_ok is True:
                return found_at
            raise FileExistsError
        with self.lock_class(self.name, self.debug):
            return self._place(key)
'''), (IMP, '''    def _add(self, key, exists_ok) -> Optional[int]:
''', '''    def _add(self, key, exists_ok) -> Optional[int]:
        found_at = self.check(key)
        if found_at is not None:
            if exists_ok is True:
                return found_at
            raise FileExistsError
        return self._place(key)

    def _place(self, key):
'''), (IMP, '''        found_at = self.check(key)
        if found_at is not None:
            if exists_ok is True:
                if getattr(self, "debug") is True:
                    log(f"{here()},,{key} already in index at {found_at}")
                return found_at
            raise FileExistsError
        self.update_length()
        keybytes''', '''        self.update_length()
        keybytes''')],
"two processes that add the same new key at once, each testing for it before "
"the other has added it",
"the key is listed twice and both processes are told that they added it", '''
import threading
from dustgoggles.codex import implements as im
try:
    index = im.TagIndex(PREFIX, create=True)
    # both are about to take the lock when the holder lets go of it
    handles = [im.TagIndex(PREFIX, create=False) for _ in range(4)]
    results = []

    def add(handle):
        try:
            handle.add("key", exists_ok=False)
            results.append("added")
        except FileExistsError:
            results.append("refused")
    lock = im.SlidingLock(PREFIX + "")
    with im.SlidingLock(PREFIX):
        threads = [threading.Thread(target=add, args=(h,)) for h in handles]
        for t in threads:
            t.start()
        import time
        time.sleep(2)
    for t in threads:
        t.join()
    assert index.update() == ["key"], index.update()
    assert sorted(results) == ["added"] + ["refused"] * 3, results
finally:
    sweep()
''')

bug("c07-stale-length", "C07", [(IMP, '''            raise KeyError(f"{target} not found in this index.")
        self.update_length()
        if found_at != self.length - 1:
''', '''            raise KeyError(f"{target} not found in this index.")
        if found_at != self.length - 1:
'''), (IMP, '''    def __delitem__(self, target):
        with self.lock_class(self.name, self.debug):
            return self._delitem(target)

    def close''', '''    def __delitem__(self, target):
        self.update_length()
        with self.lock_class(self.name, self.debug):
            return self._delitem(target)

    def close'''), (IMP, '''    def __delitem__(self, target):
        with self.lock_class(self.name, self.debug):
            found_at = self._delitem(target)
            if (''', '''    def __delitem__(self, target):
        self.update_length()
        with self.lock_class(self.name, self.debug):
            found_at = self._delitem(target)
            if ('''), (IMP, '''                except Exception:
                    # e.g. value is not serializable
                    if is_new is True:
                        self._delitem(key)
''', '''                except Exception:
                    # e.g. value is not serializable
                    if is_new is True:
                        self.update_length()
                        self._delitem(key)
''')],
"keys removed by one process between another's reading of the index length "
"and its getting the lock",
"a removal works with a length that is out of date and loses or duplicates other keys", '''
import threading, time
from dustgoggles.codex import implements as im
try:
    index = im.TagIndex(PREFIX, create=True)
    for i in range(6):
        index.add(f"k{i}")
    one, two = (im.TagIndex(PREFIX, create=False) for _ in range(2))
    errors = []

    def remove(handle, key):
        try:
            handle.remove(key)
        except Exception as ex:
            errors.append(ex)
    with im.SlidingLock(PREFIX):
        threads = [threading.Thread(target=remove, args=a)
                   for a in ((one, "k0"), (two, "k1"))]
        for t in threads:
            t.start()
        time.sleep(2)
    for t in threads:
        t.join()
    assert not errors, errors
    assert sorted(index.update()) == ["k2", "k3", "k4", "k5"], index.update()
    assert sorted(index.check(f"k{i}") for i in range(2, 6)) == [0, 1, 2, 3]
finally:
    sweep()
''')

bug("c07-value-first", "C07", [(IMP, '''            self.index.add(key, meta, exists_ok=exists_ok)
            try:
                self.memorize(value, self.address(key), exists_ok)
            except FileExistsError:
                raise
            except Exception:
                # e.g. unpicklable value: don't list a key that has no value
                try:
                    written = exists_block(self.address(key))
                except (OSError, ValueError):
                    # key cannot be part of a block's name
                    written = False
                if written is False:
                    self.index.remove(key)
                raise
''', '''            # a key that is listed always has a value
            if exists_ok is False and self.index.check(key) is not None:
                raise FileExistsError
            self.memorize(value, self.address(key), True)
            self.index.add(key, meta, exists_ok=True)
''')], "two processes that add the same new key with overwriting refused, the "
"slower one having tested for it before it was added",
"the value of the one that is refused replaces the winner's", '''
import threading, time
from dustgoggles.codex import implements as im
try:
    pad = im.Notepad(PREFIX, create=True)
    handles = [im.Notepad(PREFIX) for _ in range(3)]
    results = {}

    def add(i):
        try:
            handles[i].set("key", i, exists_ok=False)
            results[i] = "added"
        except KeyError:
            results[i] = "refused"
    for attempt in range(3):
        results.clear()
        with im.SlidingLock(PREFIX + "_index"):
            threads = []
            for i in range(3):
                threads.append(threading.Thread(target=add, args=(i,)))
                threads[-1].start()
                time.sleep(0.5)
        for t in threads:
            t.join()
        winners = [i for i, r in results.items() if r == "added"]
        assert len(winners) == 1, results
        assert pad["key"] == winners[0], (pad["key"], results)
        del pad["key"]
finally:
    sweep()
''')

bug("c08-leaked-value", "C08", [(IMP, '''                moved_block.buf[:] = valbytes
                delete_block(self.val_address(self.length - 1))
''', '''                moved_block.buf[:] = valbytes
                valblock.close()
''')], "a key with metadata removed from an index in which it is not the last",
"the metadata block of the last slot is never removed", '''
from dustgoggles.codex.implements import MetaTagIndex
try:
    index = MetaTagIndex(PREFIX, create=True)
    for key in "abc":
        index.add(key, [key])
    for key in "abc":
        index.remove(key)
    index.close()
    assert not glob.glob(f"/dev/shm/{PREFIX}*"), glob.glob(f"/dev/shm/{PREFIX}*")
finally:
    sweep()
''')

bug("c08-exit-index-only", "C08", [(IMP, '''                "constructing this object with create=True."
            )
        if cleanup_on_exit is True:
            atexit.register(self.close)
''', '''                "constructing this object with create=True."
            )
        if cleanup_on_exit is True:
            atexit.register(self.index.close)
''')], "a notepad or grid paper with cleanup on exit that still holds keys when its interpreter exits",
"only the index is removed at exit, the values stay", '''
import subprocess
script = f"""
from dustgoggles.codex.memutilz import *
deactivate_shared_memory_resource_tracker()
from dustgoggles.codex.implements import Notepad
pad = Notepad({PREFIX!r}, create=True, cleanup_on_exit=True)
pad["a"] = 1
pad["b"] = [2]
"""
try:
    subprocess.run([sys.executable, "-c", script], check=True, stderr=subprocess.DEVNULL)
    left = glob.glob(f"/dev/shm/{PREFIX}*")
    assert not left, left
finally:
    sweep()
''')

bug("c08-prefix-sweep", "C08", [(IMP, '''        self.memory.unlink()
        self.memory.close()
        if exists_block(f"{self.name}_count"):
            block = SharedMemory(f"{self.name}_count")
            block.unlink()
            block.close()
        atexit.unregister(self.close)
''', '''        self.memory.unlink()
        self.memory.close()
        # counters, and locks of processes that were killed
        for path in Path("/dev/shm").glob(f"{self.name}_*"):
            delete_block(path.name, True)
        atexit.unregister(self.close)
''')], "an index whose name is the beginning of another object's, closed while that one is in use",
"closing an index removes the blocks of other objects whose names start with its own", '''
from dustgoggles.codex.implements import TagIndex, Notepad
try:
    one = TagIndex(PREFIX, create=True)
    two = TagIndex(PREFIX + "_b", create=True)
    pad = Notepad(PREFIX + "_c", create=True)
    one.add("x")
    two.add("y")
    pad["z"] = 1
    one.close()
    assert two.update() == ["y"] and two.check("y") == 0
    assert pad["z"] == 1 and pad.keys() == ["z"]
finally:
    sweep()
''')

bug("c09-falsy-cache", "C09", [(IMP, '''        if (self._cached_value is not None) and (reread is False):
''', '''        if self._cached_value and (reread is False):
''')], "a handle that remembers something empty or zero, at whose address another one has stuck something else since",
"a handle does not keep an object it has if that object is falsy", '''
from dustgoggles.codex.implements import Sticky
try:
    for first in (0, "", [], {}, False, 0.0):
        one = Sticky.note(first, PREFIX)
        two = Sticky(PREFIX)
        assert two.read() == first
        Sticky.note("newer", PREFIX)
        assert one.read() == first and two.read() == first
        assert two.read(reread=True) == "newer"
finally:
    sweep()
''')

bug("c09-remember-failed", "C09", [(IMP, '''    def stick(self, obj):
        encoded = self.encode(obj)
        size = len(encoded)
        block = open_block(self.address, size, True, True)
        block.buf[:] = encoded
        self._cached_value = obj
''', '''    def stick(self, obj):
        self._cached_value = obj
        encoded = self.encode(obj)
        size = len(encoded)
        block = open_block(self.address, size, True, True)
        block.buf[:] = encoded
''')], "an object that cannot be pickled stuck at an address (the error being handled), and a read on the same handle after that",
"the handle remembers an object that was never stuck", '''
from dustgoggles.codex.implements import Sticky
try:
    note = Sticky.note(5, PREFIX)
    bad = lambda: 0
    try:
        note.stick(bad)
    except Exception:
        pass
    assert note.read() == 5 and Sticky(PREFIX).read() == 5
finally:
    sweep()
''')

bug("c10-text-order", "C10", [("composition.py", '''        return [args[k] for k in sorted(args.keys())]
''', '''        return [args[k] for k in sorted(args.keys(), key=str)]
''')], "a step with inserts at more than ten positions",
"positional inserts are passed in the order of their positions' spelling", '''
from dustgoggles.composition import Composition
def collect(*args):
    return args
comp = Composition([collect])
for i in range(12):
    if i != 5:
        comp.add_insert(0, i, i)
assert comp.execute("s") == (0, 1, 2, 3, 4, "s", 6, 7, 8, 9, 10, 11)
''')

bug("c10-keep-keywords", "C10", [("composition.py", '''            kwargs = step.keywords | kwargs
''', '''            step.keywords.update(kwargs)
            kwargs = step.keywords
''')], "a keyword insert for a partially applied step, which is changed, removed or not shared later on",
"inserts are written into the partial function given as a step and stay there", '''
from functools import partial
from dustgoggles.composition import Composition
def f(x, y=0, z=0):
    return x, y, z
step = partial(f, y=1)
comp = Composition([step])
comp.add_insert(0, "z", 5)
assert comp.execute(0) == (0, 1, 5)
del comp.inserts[0]["z"]
assert comp.execute(0) == (0, 1, 0)
assert step(0) == (0, 1, 0) and Composition([step]).execute(2) == (2, 1, 0)
''')

bug("c10-runtime-index", "C10", [("composition.py", '''        self.steps = reindex_mapping(self.steps)
        self._add_track_sends()
''', '''        order = sorted(self.steps, key=str)
        self.steps = reindex_mapping({k: self.steps[k] for k in order})
        self._add_track_sends()
''')], "reindexing after steps whose names are not in order (or ten or more numbered ones)",
"reindexing changes the order of the steps", '''
from dustgoggles.composition import Composition
comp = Composition({"double": lambda x: 2 * x})
comp.add_step(lambda x: x + 1, "add")
assert comp.execute(5) == 11
comp.reindex()
assert comp.execute(5) == 11 and comp.index == (0, 1)
many = Composition([lambda x, i=i: x + [i] for i in range(12)])
many.reindex()
assert many.execute([]) == list(range(12))
''')

bug("c11-piped-state", "C11", [("composition.py", '''            if target is None:
                if pipe is None:
                    continue
                pipe(state)
            elif pipe is None:
                self.place_into(state, target, index)
            else:
                self.place_into(pipe(state), target, index)
''', '''            if pipe is not None:
                state = pipe(state)
            if target is not None:
                self.place_into(state, target, index)
''')], "two sends on one step, an earlier one with a pipe",
"later sends of a step get the result of an earlier one's pipe instead of the step's output", '''
from dustgoggles.composition import Composition
got, seen = [], []
comp = Composition([lambda x: x + 1])
comp.add_send(0, pipe=lambda v: seen.append(v))
comp.add_send(0, pipe=lambda v: v * 10, target=got)
comp.add_send(0, target=got)
assert comp.execute(1) == 2
assert seen == [2] and got == [20, 2], (seen, got)
''')

bug("c11-empty-target", "C11", [("composition.py", '''        for pipe, target, index in buses:
            if target is None:
''', '''        for pipe, target, index in buses:
            if not target:
''')], "a send into an empty list or dict, or into the step called 0",
"sends into targets that are (still) empty are not delivered", '''
from dustgoggles.composition import Composition
got, table = [], {}
comp = Composition([lambda x: x + 1, lambda x: x * 2])
comp.add_send(0, target=got)
comp.add_send(1, target=table, pointer="k")
comp.execute(1)
comp.execute(2)
assert got == [2, 3] and table == {"k": 6}, (got, table)
''')

bug("c11-snapshot-inserts", "C11", [("composition.py", '''        state = signal
        for step_name in self.steps.keys():
            state = self._do_step(step_name, state)
            yield state
''', '''        state = signal
        for step_name in self.steps.keys():
            # sends must not change what a running step gets
            inserts = dict(self.inserts.get(step_name, {}))
            signal = self._do_step(step_name, signal)
            if step_name in self.inserts:
                self.inserts[step_name] = inserts
            yield signal
''')], "a send into an earlier step or into its own, which the next execution should use",
"what a step sends into itself is dropped", '''
from dustgoggles.composition import Composition
def add(x, y=0):
    return x + y
comp = Composition([add])
comp.add_send(0, target=0, pointer="y")
assert [comp.execute(1) for _ in range(4)] == [1, 2, 3, 4]
''')

bug("c12-swallowed-interrupt", "C12", [("composition.py", '''        except Exception as ex:
            if self.tracker is not None:
                self.tracker.track(
''', '''        except BaseException as ex:
            if self.tracker is not None:
                self.tracker.track(
''')], "KeyboardInterrupt (or SystemExit) during an optional composition",
"optional compositions swallow interrupts and exits", '''
from dustgoggles.composition import Composition
def stop(x):
    raise KeyboardInterrupt
comp = Composition([stop], optional=True)
try:
    comp.execute(1)
except KeyboardInterrupt:
    pass
else:
    raise SystemExit("swallowed")
''')

bug("c12-sends-on-failure", "C12", [("composition.py", '''        state = self.call_step(step_name, state)
        self._perform_sends(step_name, state)
        return state
''', '''        try:
            state = self.call_step(step_name, state)
        finally:
            self._perform_sends(step_name, state)
        return state
''')], "a step that raises and has sends or is tracked",
"a failing step is recorded as completed, and its sends are performed with its input", '''
from pathlib import Path
from dustgoggles.composition import Composition
from dustgoggles.tracker import Tracker
def ok(x):
    return x + 1
def fails(x):
    raise ValueError("no")
got, tracker = [], Tracker("t", outdir=Path("."))
comp = Composition([ok, fails], tracker=tracker)
comp.add_send(1, target=got)
try:
    comp.execute(1)
except ValueError:
    pass
assert got == []
assert [r["target"] for r in tracker.history] == ["ok", "fails"]
assert ["exception" in r for r in tracker.history] == [False, True]
''')

bug("c12-wrong-step", "C12", [("composition.py", '''        step_ix = -1
        try:
            iterpipe = self.itercall(signal, **special_kwargs)
            state = None
            for step_ix, state in zip(count(), iterpipe):
                pass
            return state
''', '''        step_ix = -1
        try:
            iterpipe = self.itercall(signal, **special_kwargs)
            state = None
            for step_ix, state in zip(count(-1), iterpipe):
                pass
            return state
'''), ("composition.py", '''                    self.steps[tuple(self.steps.keys())[step_ix + 1]],
''', '''                    self.steps[tuple(self.steps.keys())[step_ix]],
''')], "a failure in any step but the first or the second, with a tracker",
"the record of a failure names another step", '''
from pathlib import Path
from dustgoggles.composition import Composition
from dustgoggles.tracker import Tracker
def one(x):
    return x
def two(x):
    return x
def three(x):
    raise ValueError("no")
for steps in ([three], [one, three], [one, two, three], [one, two, three, one]):
    tracker = Tracker("t", outdir=Path("."))
    try:
        Composition(steps, tracker=tracker).execute(1)
    except ValueError:
        pass
    assert tracker.history[-1]["target"] == "three", tracker.history[-1]
''')

bug("c13-new-history", "C13", [("tracker.py", '''        self.history[:] = []
''', '''        self.history = []
''')], "tracking and dumping after a clear",
"after a clear, dumps go on writing the old history", '''
import json
from pathlib import Path
from dustgoggles.tracker import Tracker
t = Tracker("t", outdir=Path("."))
def f():
    pass
t.track(f, n=1)
t.clear()
t.track(f, n=2)
t.dump()
log, = json.loads(t.outpath.read_text())
assert [r["n"] for r in log["history"]] == [2], log
''')

bug("c13-written-flag", "C13", [("tracker.py", '''        mode = "rb+" if self.outpath.exists() else "wb"
''', '''        mode = "rb+" if "last_dump" in self.__dict__ else "wb"
        self.last_dump = self.log["write_timestamp"]
'''), ("tracker.py", '''        self.outpath.unlink(missing_ok=True)
''', '''        self.outpath.unlink(missing_ok=True)
        self.__dict__.pop("last_dump", None)
''')], "a log file that an earlier tracker of the same name has left",
"the first dump of a tracker replaces the dumps of earlier ones", '''
import json
from pathlib import Path
from dustgoggles.tracker import Tracker
for i in range(3):
    t = Tracker("t", outdir=Path("."))
    t.track(print, n=i)
    t.dump()
    t.dump()
logs = json.loads(t.outpath.read_text())
assert [log["history"][0]["n"] for log in logs] == [0, 0, 1, 1, 2, 2], len(logs)
''')

bug("c13-shared-metadata", "C13", [("tracker.py", '''                "trackcount": next(self.counter),
            }
            | self.metadata
            | metadata
        )
        self.history.append(rec)
''', '''                "trackcount": len(self.history) + 1,
            }
            | self.metadata
            | metadata
        )
        self.history.append(rec)
        self.metadata |= {k: v for k, v in metadata.items() if k in self.metadata}
''')], "a call with metadata of its own that override the tracker's, followed by another call",
"metadata of one call leak into the records of later ones", '''
from pathlib import Path
from dustgoggles.tracker import Tracker
t = Tracker("t", outdir=Path("."))
t.set_metadata(user="a", run=1)
t.track(print, run=2)
t.track(print)
assert [r["run"] for r in t.history] == [2, 1]
''')

bug("c14-empty-globals", "C14", [("dynamic.py", '''    globals_ = globals_ if globals_ is not None else globals()
''', '''    globals_ = globals_ or globals()
''')], "a function given an empty dict as its globals",
"the function's globals are those of dustgoggles.dynamic, which it can see and change", '''
import dustgoggles.dynamic as dyn
space = {}
f = dyn.Dynamic("def f(x):\\n    global leaked\\n    leaked = x\\n    return x", space)
assert f(5) == 5 and space.get("leaked") == 5 and not hasattr(dyn, "leaked")
g = dyn.Dynamic("def g():\\n    return getsource", {})
try:
    g()
except NameError:
    pass
else:
    raise SystemExit("name of another module found")
''')

bug("c14-flag-old-errors", "C14", [("dynamic.py", '''            if len(self.errors) > 0:
                if self.errors[-1].get('category') == 'call':
                    self.call_fail = True
''', '''            if len(self.errors) > 0:
                self.call_fail = True
''')], "a successful optional call of a function whose source did not compile before it was corrected",
"a successful call is flagged as failed because of an earlier compile error", '''
from dustgoggles.dynamic import Dynamic
f = Dynamic("def f(x:\\n    return x", {}, optional=True, lazy=True)
try:
    f.load()
except Exception:
    pass
f.source = "def f(x):\\n    return x"
f.load(reload=True)
assert f(5) == 5 and f.call_fail is False and len(f.errors) == 1
''')

bug("c14-stale-code", "C14", [("dynamic.py", '''        self.compile_source(reload)
        self.define(reload)
''', '''        if self.code is None:
            self.compile_source(reload)
        self.define(reload)
''')], "a changed source and a reload",
"a reload defines the old function again", '''
from dustgoggles.dynamic import Dynamic
f = Dynamic("def f(x):\\n    return x", {})
assert f(1) == 1
f.source = "def g(x, y):\\n    return x + y"
f.load(reload=True)
assert f(1, 2) == 3 and f.__name__ == "g"
''')

bug("c15-current-line", "C15", [("dynamic.py", '''        report['lineno'].append(tb.tb_lineno)
''', '''        report['lineno'].append(fr.f_lineno)
''')], "a frame that has gone on to another line since the exception passed through it (a handler, a finally clause, the caller of the report)",
"line numbers are those at which the frames are now, not those at which the exception was raised", '''
from dustgoggles.dynamic import exc_report
def inner():
    raise ValueError("x")
def outer():
    try:
        inner()  # line
    finally:
        str()
        str()
try:
    outer()
except ValueError as ex:
    report = exc_report(ex)
    want, tb = [], ex.__traceback__
    while tb is not None:
        want.append(tb.tb_lineno)
        tb = tb.tb_next
assert report["lineno"] == want, (report["lineno"], want)
''')

bug("c15-callback-result", "C15", [("func.py", '''            exc_callback(e)
    return optionally
''', '''            return exc_callback(e)
    return optionally
''')], "a callback that returns something",
"a failing optional function returns what its callback returns instead of None", '''
from dustgoggles.func import optionalize
def fails():
    raise ValueError
assert optionalize(fails)() is None
assert optionalize(fails, lambda ex: "handled")() is None
''')

bug("c15-filter-frames", "C15", [("dynamic.py", '''    while tb is not None:
        fr = tb.tb_frame
''', '''    seen = set()
    while tb is not None:
        fr = tb.tb_frame
        if (fr.f_code, tb.tb_lineno) in seen:
            # recursion: already reported
            tb = tb.tb_next
            continue
        seen.add((fr.f_code, tb.tb_lineno))
'''), ("dynamic.py", '''        report['filename'].append(fr.f_code.co_filename)
''', '''        report['filename'].append(str(fr.f_code.co_filename))
''')], "an exception that passed through several frames of one recursive function",
"frames of a recursive function are reported only once", '''
from dustgoggles.dynamic import exc_report
def down(n):
    if n == 0:
        raise ValueError
    return down(n - 1)
try:
    down(5)
except ValueError as ex:
    report = exc_report(ex)
assert len(report["lineno"]) == len(report["name"]) == len(report["filename"]) == 7
''')
