"""
shared-memory event monitor: records every shm_open / shm_unlink underneath
multiprocessing.shared_memory in this process.
"""
import os
import multiprocessing.shared_memory as _shm
from multiprocessing import resource_tracker

_px = _shm._posixshmem


class _Proxy:
    """stands in for the _posixshmem module inside the standard library"""

    def __init__(self):
        self.log, self.on, self.delay = [], False, None

    def shm_open(self, name, flags, mode=0o777):
        if self.delay is not None:
            self.delay()
        try:
            fd = _px.shm_open(name, flags, mode=mode)
        except OSError as ex:
            if self.on:
                self.log.append(
                    ("create" if flags & os.O_CREAT else "attach",
                     name.lstrip("/"), type(ex).__name__)
                )
            raise
        if self.on:
            self.log.append(
                ("create" if flags & os.O_CREAT else "attach",
                 name.lstrip("/"), None)
            )
        if self.delay is not None:
            self.delay()
        return fd

    def shm_unlink(self, name):
        if self.delay is not None:
            self.delay()
        try:
            _px.shm_unlink(name)
        except OSError as ex:
            if self.on:
                self.log.append(
                    ("unlink", name.lstrip("/"), type(ex).__name__))
            raise
        if self.on:
            self.log.append(("unlink", name.lstrip("/"), None))
        if self.delay is not None:
            self.delay()


def debugging(rng, p=0.08):
    """sometimes: constructor options that turn on debug logging"""
    if rng.random() >= p:
        return {}
    os.makedirs("../holding", exist_ok=True)
    return {"debug": True}


PROXY = _Proxy()
_shm._posixshmem = PROXY


def untrack():
    """in harness workers: keep the resource tracker process out of the way"""
    def nothing(*_):
        return None
    resource_tracker.register = nothing
    resource_tracker.unregister = nothing


class recording:
    def __enter__(self):
        self.start = len(PROXY.log)
        self.was, PROXY.on = PROXY.on, True
        return self

    def __exit__(self, *_):
        PROXY.on = self.was
        self.events = PROXY.log[self.start:]
        if not PROXY.on:
            del PROXY.log[:]


def live(prefix=""):
    """names of existing blocks that start with prefix"""
    return {n for n in os.listdir("/dev/shm") if n.startswith(prefix)}


def sweep(prefix):
    """remove leftover blocks of a harness prefix"""
    assert len(prefix) >= 6
    for n in live(prefix):
        try:
            os.unlink(f"/dev/shm/{n}")
        except FileNotFoundError:
            pass


_SERIAL = [0]


def fresh(rng=None):
    """a prefix no other object uses"""
    _SERIAL[0] += 1
    # the standard library's own names begin with psm_
    start = rng.choice(["", "psm_", "sem."]) if rng is not None else ""
    return f"{start}vm{os.getpid():06x}x{_SERIAL[0]:x}"
