"""C02: shared-memory save/load and block helpers vs a dict of blocks"""
import os

from dustgoggles.codex import codecs, memutilz
from multiprocessing.shared_memory import SharedMemory
from vmon import gen, procs, shmtrace
from vmon.compare import same
from vmon.core import Check, Workload

SIZES = [1, 2, 7, 8, 255, 256, 257, 4095, 4096, 4097, 8192, 65536, 100003]


def content(rng):
    n = rng.choice(SIZES) if rng.random() < 0.7 else rng.randint(1, 3000)
    roll = rng.random()
    if roll < 0.003:
        # beyond a megabyte
        n = 2 ** 20 + rng.choice([0, 1, 7, 4096, 2 ** 20, 3 * 2 ** 20 + 5])
        return rng.randbytes(1000).ljust(n - 3, b"\0") + rng.choice(
            [b"\0\0\0", b"end", b"a\0\0"])
    if roll < 0.1:
        return bytes(n)
    if roll < 0.15:
        return rng.randbytes(n) + b"\0" * rng.choice([1, 2, 9, 4096])
    if roll < 0.2:
        return b"\xff" * n
    return rng.randbytes(n)


def ident(x):
    return x


def real(name):
    """the bytes the OS holds at this address (None: no block)"""
    try:
        with open(f"/dev/shm/{name}", "rb") as f:
            return f.read()
    except FileNotFoundError:
        return None


class Blocks:
    """model: address -> bytes, against the OS's view"""

    def __init__(self, mon, rng, prefix, n):
        self.mon, self.rng, self.prefix = mon, rng, prefix
        self.addresses = [f"{prefix}_{i}" for i in range(n - 1)]
        # names that start with one another
        self.addresses.append(self.addresses[0] + rng.choice(
            ["_x", "_x", "_x", "_", "0", "00", " ", "X", "é", ".", "\n"]))
        self.model = {}
        self.memorize, self.remember = codecs.generic_mnemonic_factory()
        self.encode = self.decode = ident
        self.log = []

    def agree(self):
        for a in self.addresses:
            self.mon.eq(real(a), self.model.get(a),
                        f"block content differs after {self.log[-1]}",
                        address=a, log=self.log[-8:])
        self.mon.eq(shmtrace.live(self.prefix), set(self.model),
                    f"set of existing blocks after {self.log[-1]}")

    def op_save(self, a):
        value = content(self.rng)
        out = self.memorize(value, a, True, self.encode)
        self.mon.eq(out, a, "saving returns the address")
        self.model[a] = value
        self.mon.ev("saves")

    def op_save_refusing(self, a):
        value = content(self.rng)
        if a in self.model:
            self.mon.raises(FileExistsError,
                            lambda: self.memorize(value, a, False, self.encode),
                            "overwriting refused but address taken", address=a)
            self.mon.ev("refused_saves")
        else:
            self.memorize(value, a, False, self.encode)
            self.model[a] = value
            self.mon.ev("saves")

    def op_load(self, a):
        if a in self.model:
            if self.rng.random() < 0.5:
                got = self.remember(a, True, self.decode)
            else:
                got = self.remember(a, decode=self.decode)
            self.mon.eq(got, self.model[a], "loaded bytes", address=a)
            self.mon.ev("loads")
        else:
            self.mon.raises(FileNotFoundError, lambda: self.remember(a, True, self.decode),
                            "loading an absent address", address=a)

    def op_raw(self, a):
        if a not in self.model:
            self.mon.raises(FileNotFoundError,
                            lambda: self.remember(a, False),
                            "raw load of an absent address", address=a)
            return
        block = self.remember(a, False, self.decode)
        self.mon.check(isinstance(block, SharedMemory) and block.name == a,
                       "raw load does not return the block", got=block)
        self.mon.eq(block.buf.tobytes(), self.model[a], "raw block content")
        if self.rng.random() < 0.4:
            i = self.rng.randrange(len(self.model[a]))
            block.buf[i] = new = self.rng.randrange(256)
            m = bytearray(self.model[a])
            m[i] = new
            self.model[a] = bytes(m)
        block.close()
        self.mon.ev("raw_loads")

    def op_fetch(self, a):
        if a in self.model:
            got = memutilz.fetch_block_bytes(a)
            self.mon.eq(got, self.model[a], "fetched bytes", address=a)
        else:
            self.mon.raises(FileNotFoundError,
                            lambda: memutilz.fetch_block_bytes(a),
                            "fetching an absent block", address=a)

    def op_exists(self, a):
        self.mon.eq(memutilz.exists_block(a), a in self.model,
                    "existence test", address=a)

    def op_delete(self, a):
        missing_ok = self.rng.choice([True, False, None])
        args = () if missing_ok is None else (missing_ok,)
        if a in self.model or missing_ok is True:
            memutilz.delete_block(a, *args)
            self.model.pop(a, None)
            self.mon.ev("deletes")
        else:
            self.mon.raises(FileNotFoundError,
                            lambda: memutilz.delete_block(a, *args),
                            "deleting an absent block", address=a)

    def op_open(self, a):
        size = self.rng.choice(SIZES[:10])
        mode = self.rng.choice(["attach", "create", "overwrite"])
        if mode == "attach":
            if a not in self.model:
                self.mon.raises(
                    FileNotFoundError,
                    lambda: memutilz.open_block(a, size, create=False),
                    "attaching to an absent block", address=a)
                return
            block = memutilz.open_block(a, size, create=False)
        elif mode == "create":
            block = memutilz.open_block(a, size)
            self.model.setdefault(a, bytes(size))
        else:
            block = memutilz.open_block(a, size, True, True)
            self.model[a] = bytes(size)
        self.mon.check(block.name == a, "opened another block", got=block.name)
        self.mon.eq(block.size, len(self.model[a]), f"size of {mode}ed block")
        self.mon.eq(block.buf.tobytes(), self.model[a],
                    f"content of {mode}ed block")
        if self.rng.random() < 0.5:
            new = self.rng.randbytes(block.size)
            block.buf[:] = new
            self.model[a] = new
        block.close()
        self.mon.ev("opens")

    OPS = ["save"] * 4 + ["save_refusing"] * 2 + ["load"] * 3 + [
        "raw", "fetch", "exists", "exists", "delete", "delete", "open", "open"]

    def step(self):
        name = self.rng.choice(self.OPS)
        a = self.rng.choice(self.addresses)
        self.log.append((name, a, a in self.model))
        getattr(self, f"op_{name}")(a)
        self.mon.ev("operations")
        self.agree()


def w_histories(mon, rng):
    shmtrace.untrack()
    prefix = shmtrace.fresh()
    try:
        b = Blocks(mon, rng, prefix, rng.choice([2, 3, 4]))
        for _ in range(rng.randint(5, 40)):
            b.step()
        mon.sig([x[0::2] for x in b.log])
        mon.sample(f"{[x[0] for x in b.log]}")
    finally:
        shmtrace.sweep(prefix)


def w_objects(mon, rng):
    """whole objects through each codec, sizes growing and shrinking"""
    shmtrace.untrack()
    prefix = shmtrace.fresh()
    try:
        memorize, remember = codecs.generic_mnemonic_factory()
        kinds = [(codecs.json_codec_factory, gen.json_value),
                 (codecs.ast_codec_factory, gen.literal),
                 (codecs.pickle_codec_factory, gen.picklable)]
        for _ in range(rng.randint(2, 10)):
            factory, make = rng.choice(kinds)
            encode, decode = factory()
            value = make(rng)
            memorize(value, prefix, True, encode)
            for _ in range(rng.choice([1, 1, 3])):
                mon.eq(remember(prefix, True, decode), value,
                       "loaded object differs")
            if gen.alter(rng, value):
                # the same object with another content
                memorize(value, prefix, True, encode)
                got = remember(prefix, True, decode)
                mon.eq(got, value, "altered object differs")
                if gen.alter(rng, got):
                    # what was loaded is the reader's own
                    mon.eq(remember(prefix, True, decode), value,
                           "loaded object differs")
                mon.ev("altered_objects")
            mon.eq(remember(prefix, True, ident), encode(value), "stored bytes")
            mon.ev("objects")
            before = real(prefix)
            mon.raises(FileExistsError,
                       lambda: memorize(make(rng), prefix, False, encode),
                       "refused overwrite")
            mon.eq(real(prefix), before, "refused save changed the content")
            # a save that cannot encode must not destroy what is there
            mon.raises(Exception, lambda: memorize(
                1, prefix, True, lambda v: 1 / 0), "encoder error")
            mon.eq(real(prefix), before, "failed save changed the content")
            mon.sig(factory.__name__, len(before))
    finally:
        shmtrace.sweep(prefix)


def w_processes(mon, rng):
    """saves and loads alternate between processes"""
    prefix = shmtrace.fresh()
    shmtrace.untrack()
    try:
        seeds = rng.random()

        def turn(k, model):
            def body():
                import random
                r = random.Random(f"{seeds}/{k}")
                b = Blocks(mon, r, prefix, 3)
                b.model = dict(model)
                b.log.append(("start", k, True))
                b.agree()
                for _ in range(r.randint(2, 12)):
                    b.step()
                return b.model, len(b.log)
            return body
        model, total = {}, 0
        for k in range(rng.randint(3, 6)):
            res = procs.run_procs([turn(k, model)])
            if res[0][0] == "exc" and hasattr(res[0][1], "detail"):
                raise res[0][1]
            (model, n), = procs.clean(mon, res, "other process")
            total += n
            for a, v in model.items():
                mon.eq(memutilz.fetch_block_bytes(a), v,
                       "this process sees another content")
        mon.ev("cross_process_turns", k + 1)
        mon.sig("proc", total)
    finally:
        shmtrace.sweep(prefix)


def w_big(mon, rng):
    shmtrace.untrack()
    prefix = shmtrace.fresh()
    try:
        memorize, remember = codecs.generic_mnemonic_factory()
        for n in (3_000_017, 1, 5_000_000, 4096, 1_048_577, 40_000_003):
            v = rng.randbytes(n)
            memorize(v, prefix, True, ident)
            mon.check(remember(prefix, True, ident) == v, "large content differs", n=n)
            mon.ev("large_saves")
        memutilz.delete_block(prefix)
        mon.eq(shmtrace.live(prefix), set(), "block left")
        mon.sig("big")
    finally:
        shmtrace.sweep(prefix)


CHECK = Check(
    "C02",
    [
        Workload(w_histories, 1600, 60000,
                 {"operations": 5000, "saves": 500, "loads": 300,
                  "refused_saves": 100, "deletes": 100, "opens": 300,
                  "raw_loads": 50}),
        Workload(w_objects, 500, 20000, {"objects": 500}),
        Workload(w_processes, 60, 2000, {"cross_process_turns": 50}),
        Workload(w_big, 4, 40),
    ],
    rule="a case is a random history over 2-4 addresses; after every operation "
         "the OS's blocks are compared with the model; distinct = distinct "
         "sequences of (operation, address present or not)",
    assumptions=["blocks are files of /dev/shm (Linux)"],
)
