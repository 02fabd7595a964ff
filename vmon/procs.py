"""real child processes for stress workloads"""
import os
import pickle
import resource
import signal
import sys
import tempfile
import time
import traceback

from vmon.core import Inconclusive


class ChildDied(Exception):
    pass


def run_procs(fns, cpu=40, wall=120, scratch="."):
    """
    fork one child per callable; returns their ("ok", value) / ("exc", exc)
    outcomes.  a child that burns `cpu` seconds is reported as ("cpu", None),
    one killed by another signal as ("signal", n); a wall timeout is
    inconclusive.
    """
    outdir = tempfile.mkdtemp(dir=scratch)
    sys.stdout.flush()
    sys.stderr.flush()
    pids = []
    for ix, fn in enumerate(fns):
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                signal.setitimer(signal.ITIMER_PROF, 0)
                signal.setitimer(signal.ITIMER_REAL, 0)
                signal.signal(signal.SIGALRM, signal.SIG_DFL)
                resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
                used = time.process_time()
                lim = int(used) + cpu
                signal.signal(signal.SIGXCPU, signal.SIG_DFL)
                resource.setrlimit(resource.RLIMIT_CPU, (lim, lim + 5))
                try:
                    out = ("ok", fn())
                except BaseException as ex:
                    out = ("exc", ex, traceback.format_exc())
                try:
                    blob = pickle.dumps(out, protocol=5)
                except Exception:
                    blob = pickle.dumps(
                        ("exc", RuntimeError(repr(out[1])), str(out[-1])))
                path = os.path.join(outdir, str(ix))
                with open(path + ".t", "wb") as f:
                    f.write(blob)
                os.rename(path + ".t", path)
                code = 0
            finally:
                os._exit(code)
        pids.append(pid)
    deadline = time.monotonic() + wall
    stats = {}
    try:
        while len(stats) < len(pids):
            for pid in pids:
                if pid in stats:
                    continue
                got, st = os.waitpid(pid, os.WNOHANG)
                if got:
                    stats[pid] = st
            if time.monotonic() > deadline:
                raise Inconclusive(f"child processes still running at {wall}s")
            time.sleep(0.001)
    finally:
        for pid in pids:
            if pid not in stats:
                os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
    results = []
    for ix, pid in enumerate(pids):
        path = os.path.join(outdir, str(ix))
        if os.path.exists(path):
            with open(path, "rb") as f:
                results.append(pickle.load(f))
        elif os.WIFSIGNALED(stats[pid]):
            sig = os.WTERMSIG(stats[pid])
            if sig in (signal.SIGXCPU,):
                results.append(("cpu", None))
            elif sig == signal.SIGKILL:
                # hard CPU limit, or the sandbox's memory guard
                raise Inconclusive("child process was killed")
            else:
                results.append(("signal", sig))
        else:
            raise Inconclusive(f"child {ix} ended with {stats[pid]}")
    return results


def clean(mon, results, what):
    """every child must have finished normally; returns their values"""
    for r in results:
        if r[0] == "cpu":
            mon.fail(f"{what}: a process burned its CPU allowance without "
                     f"finishing (waiting for something never released)")
        if r[0] == "signal":
            mon.fail(f"{what}: a process died of signal {r[1]}")
        if r[0] == "exc":
            if isinstance(r[1], Inconclusive):
                raise r[1]
            mon.fail(f"{what}: {type(r[1]).__name__}: {r[1]}", traceback=r[2])
    return [r[1] for r in results]
