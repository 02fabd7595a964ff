"""
runs a plan of shared-memory and multiprocessing operations in a process of
its own (see checks/c26_tracking.py): python shm_child.py PLAN.json
"""
import gc
import json
import multiprocessing as mp
import os
import signal
import sys
from multiprocessing import resource_tracker
from multiprocessing.shared_memory import ShareableList, SharedMemory

ORIGINAL = (resource_tracker.register, resource_tracker.unregister,
            dict(resource_tracker._CLEANUP_FUNCS))
KEPT = []


def bad(what):
    print("BAD", what, flush=True)


def expect(got, want, what):
    if got != want:
        bad(f"{what}: got {got!r}, want {want!r}")


def square(x):
    return x * x


def put(queue, x):
    queue.put(x)


def step(op):
    from dustgoggles.codex import memutilz as mu
    kind, *args = op
    if kind == "deactivate":
        mu.deactivate_shared_memory_resource_tracker()
        others = dict(ORIGINAL[2])
        others.pop("shared_memory")
        now = dict(resource_tracker._CLEANUP_FUNCS)
        now.pop("shared_memory", None)
        expect(now, others, "cleanup of other resources")
    elif kind == "create":
        name, text, via, keep = args
        data = text.encode()
        shm = mu.open_block(name, len(data)) if via == "open_block" else \
            SharedMemory(name, True, len(data))
        shm.buf[:len(data)] = data
        KEPT.append(shm) if keep else shm.close()
    elif kind == "overwrite":
        name, text = args
        data = text.encode()
        shm = mu.open_block(name, len(data), overwrite=True)
        shm.buf[:len(data)] = data
        shm.close()
    elif kind == "attach":
        name, text, via, keep = args
        want = text.encode()
        if via == "fetch":
            expect(mu.fetch_block_bytes(name)[:len(want)], want, "contents")
            return
        shm = mu.open_block(name, len(want)) if via == "open_block" else \
            SharedMemory(name)
        expect(bytes(shm.buf[:len(want)]), want, "contents")
        KEPT.append(shm) if keep else shm.close()
    elif kind == "exists":
        expect(mu.exists_block(args[0]), args[1], "existence")
    elif kind == "delete":
        name, via = args
        if via == "delete_block":
            mu.delete_block(name)
        else:
            shm = SharedMemory(name)
            shm.unlink()
            shm.close()
        expect(mu.exists_block(name), False, "existence after deletion")
    elif kind == "list":
        name, items = args
        sl = ShareableList(items, name=name)
        expect(list(sl), items, "shareable list")
        sl.shm.close()
    elif kind == "lock":
        ctx = mp.get_context(args[0])
        for make in (ctx.Lock, ctx.RLock, ctx.Semaphore, ctx.Event,
                     ctx.Condition):
            thing = make()
            if hasattr(thing, "acquire"):
                expect(thing.acquire(), True, "acquire")
                thing.release()
            else:
                thing.set()
                expect(thing.is_set(), True, "event")
    elif kind == "queue":
        ctx = mp.get_context(args[0])
        queue = ctx.Queue()
        p = ctx.Process(target=put, args=(queue, [1, "a"]))
        p.start()
        expect(queue.get(timeout=60), [1, "a"], "item of a queue")
        p.join()
        expect(p.exitcode, 0, "exit code of a process")
        queue.close()
        queue.join_thread()
    elif kind == "pool":
        with mp.get_context(args[0]).Pool(2) as pool:
            expect(pool.map(square, range(5)), [0, 1, 4, 9, 16], "pool map")
            pool.close()
            pool.join()
    elif kind == "child":
        ctx, ops = args
        p = mp.get_context(ctx).Process(target=run, args=(ops,))
        p.start()
        p.join()
        expect(p.exitcode, 0, "exit code of a child")
    elif kind == "gc":
        KEPT.clear()
        gc.collect()
    elif kind == "leak":
        # the name of a semaphore nobody releases: its process will be gone
        lock = mp.get_context("spawn").Lock()
        KEPT.append(lock)
        print("LEAK", lock._semlock.name, flush=True)
    elif kind == "thing":
        path, given_up = args
        resource_tracker.register(path, "noop")
        if given_up:
            resource_tracker.unregister(path, "noop")
    elif kind == "use":
        # the rest of the library, which must leave tracking alone
        import dustgoggles.codex.codecs
        import dustgoggles.codex.implements
        import dustgoggles.composition
        import dustgoggles.dynamic
        import dustgoggles.func
        import dustgoggles.structures
        name, = args
        implements = dustgoggles.codex.implements
        implements.Sticky.note([1, 2], name + "s")
        expect(implements.Sticky(name + "s").read(), [1, 2], "note")
        pad = implements.Notepad(name + "p", create=True)
        pad["a"] = "b"
        expect(pad["a"], "b", "item of a notepad")
        pad.close()
    elif kind == "untouched":
        now = (resource_tracker.register, resource_tracker.unregister,
               dict(resource_tracker._CLEANUP_FUNCS))
        expect(now, ORIGINAL, "resource tracking")
    else:
        raise AssertionError(kind)


def run(ops):
    for op in ops:
        try:
            step(op)
        except Exception as ex:
            bad(f"{op}: {type(ex).__name__}: {ex}")
            raise


if __name__ == "__main__":
    with open(sys.argv[1]) as f:
        plan = json.load(f)
    run(plan["ops"])
    print("DONE", flush=True)
    how = plan["exit"]
    if how == "exit":
        sys.exit(7)
    if how == "raise":
        raise RuntimeError("planned")
    if how == "_exit":
        os._exit(7)
    if how == "kill":
        os.kill(os.getpid(), signal.SIGKILL)
