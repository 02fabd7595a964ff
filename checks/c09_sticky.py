"""C09: stickies vs a dict of addresses, across handles and processes"""
import fcntl
import os
import random
import re
import subprocess
import sys

from dustgoggles.codex.implements import Sticky
from vmon import gen, procs, shmtrace
from vmon.compare import same
from vmon.core import Check, Workload

NOTHING = object()


def value(rng):
    roll = rng.random()
    if roll < 0.1:
        return rng.choice([None, 0, "", False, [], {}, b"", 0.0, (), set()])
    if roll < 0.2:
        # sizes around pages and powers of two
        n = rng.choice([1, 255, 4000, 4096, 4097, 8192, 65536, 300000])
        return rng.choice([b"\x00", b"x", b"\xff"]) * n
    if roll < 0.25:
        loop = [gen.atom(rng)]
        loop.append(loop)
        return loop
    return gen.picklable(rng)


def remote_read(address, how):
    """what another process reads"""
    if how == "fresh":
        return Sticky(address).read()
    if how == "reread":
        return Sticky(address).read(reread=True)
    if how == "valued":
        return Sticky(address, "stale").read(True)
    handle = Sticky(address)
    handle.read()
    return handle.read()


class Stickies:
    def __init__(self, mon, rng, prefix):
        self.mon, self.rng, self.prefix = mon, rng, prefix
        self.addresses = [f"{prefix}{s}" for s in (
            "", "_a", "_a_b", "0", " ", "_a ", "_A")]
        self.model = {}
        self.handles = []  # [handle, address, remembered]
        self.trail = []

    def handle(self):
        if not self.handles or self.rng.random() < 0.3:
            a = self.rng.choice(self.addresses)
            if self.rng.random() < 0.2:
                mine = value(self.rng)
                h = Sticky(a, mine)
            else:
                mine, h = None, Sticky(a)
            self.handles.append([h, a, mine])
            self.handles[:] = self.handles[-6:]
            return self.handles[-1]
        return self.rng.choice(self.handles)

    def op_note(self):
        a, v = self.rng.choice(self.addresses), value(self.rng)
        h = Sticky.note(v, a)
        self.mon.eq(h.address, a, "address of a note")
        self.model[a] = v
        self.handles.append([h, a, v])
        self.mon.ev("sticks")

    def op_stick(self):
        rec = self.handle()
        v = value(self.rng)
        rec[0].stick(v)
        if self.rng.random() < 0.3 and gen.alter(self.rng, v):
            # the same object with another content
            rec[0].stick(v)
            self.mon.ev("altered_objects")
        if rec[1] in self.model:
            self.mon.ev("replacements")
        self.model[rec[1]] = rec[2] = v
        self.mon.ev("sticks")

    def op_read(self):
        rec = self.handle()
        h, a, mine = rec
        got = h.read()
        if mine is not None:
            self.mon.eq(got, mine, "a handle does not keep its object",
                        trail=self.trail[-8:])
            self.mon.ev("remembered_reads")
            return
        rec[2] = want = self.model.get(a)
        self.mon.eq(got, want, "object read", trail=self.trail[-8:])
        self.mon.ev("reads" if a in self.model else "absent_reads")

    def op_reread(self):
        rec = self.handle()
        h, a, mine = rec
        if a in self.model:
            got = h.read(reread=True)
            self.mon.eq(got, self.model[a], "object reread",
                        trail=self.trail[-8:])
            rec[2] = self.model[a]
            self.mon.ev("rereads")
        else:
            # (whether or not it remembers an object)
            self.mon.eq(h.read(True), None, "reread with nothing stuck",
                        trail=self.trail[-8:])
            self.mon.ev("absent_reads")

    def op_pull(self):
        rec = self.handle()
        if rec[1] not in self.model:
            return
        self.rng.choice([rec[0].pull, rec[0].close])()
        del self.model[rec[1]]
        self.mon.eq(os.path.exists(f"/dev/shm/{rec[1]}"), False,
                    "the block is still there after closing")
        self.mon.ev("pulls")

    def op_spoil(self):
        """a refused stick leaves everything as it was"""
        rec = self.handle()
        try:
            rec[0].stick(lambda: 0)
        except Exception:
            self.mon.ev("refused_sticks")
        else:
            self.mon.fail("an unpicklable object was stuck")

    def remote(self):
        """every address from another process"""
        plan = [(a, self.rng.choice(["fresh", "reread", "valued", "twice"]))
                for a in self.addresses]
        new = {a: value(self.rng) for a in self.addresses
               if self.rng.random() < 0.3}
        pull = [a for a in self.addresses
                if (a in self.model or a in new) and self.rng.random() < 0.2]

        def visit():
            # compared over there: not everything survives the way back
            # (e.g. identity of recursive structures)
            for a, how in plan:
                if a in self.model or how != "valued":
                    got = remote_read(a, how)
                    if not same(got, self.model.get(a)):
                        return a, how, repr(got)[:500]
            for a, v in new.items():
                Sticky.note(v, a)
            for a in pull:
                Sticky(a).pull()
        [bad] = procs.clean(self.mon, procs.run_procs([visit]), "reader")
        self.mon.eq(bad, None, "another process reads something else",
                    model=self.model, trail=self.trail[-8:])
        self.model.update(new)
        for a in pull:
            del self.model[a]
        self.mon.ev("remote_visits")

    def agree(self):
        self.mon.eq(shmtrace.live(self.prefix), set(self.model),
                    f"blocks that exist after {self.trail[-3:]}")

    def run(self, steps, remotes):
        ops = (["note", "stick", "stick", "read", "read", "reread", "reread",
                "pull", "spoil"])
        for i in range(steps):
            op = self.rng.choice(ops)
            self.trail.append(op)
            getattr(self, f"op_{op}")()
            self.agree()
            if remotes and self.rng.random() < remotes / steps:
                self.trail.append("remote")
                self.remote()
                self.agree()
        for rec in self.handles:
            if rec[1] in self.model:
                self.mon.eq(rec[0].read(True), self.model[rec[1]],
                            "object reread at the end")
                self.mon.ev("rereads")


def w_handles(mon, rng, remotes=0):
    shmtrace.untrack()
    prefix = shmtrace.fresh(rng)
    try:
        s = Stickies(mon, rng, prefix)
        s.run(rng.randint(4, 40), remotes)
        mon.sig(s.trail, sorted(map(type, s.model.values()), key=str))
        mon.sample(f"{len(s.trail)} operations {s.trail[:8]}.. on "
                   f"{len(s.addresses)} addresses, "
                   f"{len(s.handles)} handles")
    finally:
        shmtrace.sweep(prefix)


def w_remote(mon, rng):
    w_handles(mon, rng, 4)


def w_generated(mon, rng):
    """generated addresses; one case at a time, they have no prefix"""
    shmtrace.untrack()
    random.seed(rng.random())
    made = []
    with open(os.path.join(os.path.dirname(os.getcwd()), "gen.lock"),
              "w") as f:
        fcntl.flock(f, fcntl.LOCK_EX)
        try:
            model = {}
            for _ in range(rng.randint(1, 8)):
                v = value(rng)
                h = Sticky.note(v)
                made.append(h.address)
                model[h.address] = v
                mon.check(isinstance(h.address, str) and h.address != "None",
                          "no address was generated", got=h.address)
            # an address that is no text, and no truth either
            a = rng.choice([0, 0.0, False])
            if not os.path.exists(f"/dev/shm/{a}"):
                made.append(str(a))
                v = value(rng)
                h = Sticky.note(v, a)
                mon.eq(h.address, str(a), "address of a note")
                model[str(a)] = v
                mon.eq(Sticky(a).read(), v, "object at a falsy address")
                mon.ev("falsy_addresses")
            for a, v in model.items():
                mon.eq(Sticky(a).read(), v, "object at a generated address")
                mon.ev("generated_reads")
                if rng.random() < 0.5:
                    Sticky(a).pull()
                    mon.eq(Sticky(a).read(), None, "pulled")
            mon.sig("gen", len(made), sorted(map(type, model.values()),
                                             key=str))
        finally:
            for a in made:
                if re.fullmatch(r"[A-Za-z0-9_.]+", a) and os.path.exists(
                    f"/dev/shm/{a}"
                ):
                    os.unlink(f"/dev/shm/{a}")


SCRIPT = """
import sys
sys.dont_write_bytecode = True
sys.path.insert(0, "/repo")
from dustgoggles.codex.memutilz import (
    deactivate_shared_memory_resource_tracker)
from dustgoggles.codex.implements import Sticky
deactivate_shared_memory_resource_tracker()
address, how, end = sys.argv[1:4]
value = list(range(1000))
if how == "note":
    h = Sticky.note(value, address, cleanup_on_exit=True)
elif how == "handle":
    h = Sticky(address, cleanup_on_exit=True)
    h.stick(value)
elif how == "guest":
    # the host's sticky
    h = Sticky(address, cleanup_on_exit=True)
    assert h.read() == "host"
elif how in ("pulled", "again"):
    h = Sticky.note("earlier", address, cleanup_on_exit=True)
    h.stick("later")
    h.pull()
    assert Sticky(address).read() is None
    if how == "again":
        h.stick(value)
    else:
        # the host reuses the address
        print("pulled", flush=True)
        input()
        h = Sticky(address)
        value = "host"
elif how == "restuck":
    h = Sticky(address, cleanup_on_exit=True)
    for i in range(3):
        h.stick([i])
    h.stick(value)
elif how == "keep":
    h = Sticky.note(value, address)
assert Sticky(address).read() == h.read()
assert how == "guest" or h.read() == value
if end == "error":
    raise ValueError("planned")
if end == "exit":
    sys.exit(7)
"""


def w_exit(mon, rng):
    """stickies whose process ends"""
    shmtrace.untrack()
    a = shmtrace.fresh(rng)
    how = rng.choice(["note", "handle", "guest", "keep", "pulled", "again",
                      "restuck"])
    end = rng.choice(["return", "error", "exit"])
    try:
        if how == "guest":
            Sticky.note("host", a)
        with subprocess.Popen(
            [sys.executable, "-c", SCRIPT, a, how, end], text=True,
            stdin=subprocess.PIPE, stdout=subprocess.PIPE,
            stderr=subprocess.PIPE,
        ) as child:
            try:
                if how == "pulled" and child.stdout.readline():
                    Sticky.note("host", a)
                _, err = child.communicate("\n", timeout=200)
            except BaseException:
                child.kill()
                raise
        code = {"return": 0, "error": 1, "exit": 7}[end]
        mon.eq(child.returncode, code, "exit status", err=err)
        lines = err.strip().split("\n")
        mon.check(lines[-1] == ("ValueError: planned" if end == "error"
                                else ""), "complaints", err=err)
        if how == "pulled":
            mon.eq(Sticky(a).read(), "host",
                   "sticky at an address another process had pulled from")
        elif how == "keep":
            mon.eq(Sticky(a).read(), list(range(1000)), "kept sticky")
        else:
            mon.eq(shmtrace.live(a), set(), "block after its owner's exit")
            mon.eq(Sticky(a).read(), None, "object after its owner's exit")
        mon.ev("process_exits")
        mon.sig("exit", how, end)
    finally:
        shmtrace.sweep(a)


CHECK = Check(
    "C09",
    [
        Workload(w_handles, 6000, 90000,
                 {"reads": 1000, "rereads": 1000, "replacements": 1000,
                  "remembered_reads": 1000, "absent_reads": 300,
                  "pulls": 500, "refused_sticks": 500}),
        Workload(w_remote, 320, 5000, {"remote_visits": 100}),
        Workload(w_generated, 80, 2000, {"generated_reads": 80}),
        Workload(w_exit, 42, 420, {"process_exits": 42}, wall=300),
    ],
    rule="a case is a random sequence of note/stick/read/reread/pull on four "
         "addresses through up to six handles, with visits by other "
         "processes; distinct = distinct (operation sequence, object types)",
    assumptions=["no two processes write the same address at the same time",
                 "what rereading gives on a handle that remembers an object "
                 "when nothing is stuck any more is left open"],
)
