"""
case engine: seeded workloads, sharded over forked workers, watched by a
monitor whose verdict is violated / held / inconclusive.
"""
import ctypes
import errno
import hashlib
import json
import os
import pickle
import random
import shutil
import signal
import sys
import tempfile
import time
import traceback
from collections import Counter
from pathlib import Path

from vmon import cover, reach

VERIF = Path(__file__).resolve().parent.parent
REPO = Path("/repo")
KNOWN_FILE = VERIF / "known_findings.txt"


class Violation(Exception):
    """the oracle refuted the property on this execution"""


class Inconclusive(BaseException):
    """no verdict: watchdog, resources, or a monitor that saw nothing"""


class NoProgress(BaseException):
    """one case burned its CPU allowance without finishing"""


def short(obj, n=300):
    try:
        text = obj if isinstance(obj, str) else repr(obj)
    except Exception as ex:  # reprs of hostile objects
        text = f"<unprintable {type(obj).__name__}: {ex!r}>"
    return text if len(text) <= n else text[: n - 3] + "..."


class Monitor:
    """what one worker observed"""

    def __init__(self, prop, tier, seed, known):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.known_keys = known
        self.events = Counter()
        self.cases = Counter()
        self.distinct = set()
        self.samples = {}
        self.findings = {}
        self.workload = None
        self.scratch = None
        self._case_events = 0

    # --- observations
    def ev(self, name, n=1):
        self.events[name] += n

    def sig(self, *parts):
        """signature of a distinct non-trivial case / state"""
        data = repr(parts).encode("utf-8", "backslashreplace")
        self.distinct.add(hashlib.blake2b(data, digest_size=8).digest())

    def sample(self, text):
        had = self.samples.setdefault(self.workload, [])
        if len(had) < 2:
            had.append(short(text, 600))

    # --- oracle outcomes
    def fail(self, message, **detail):
        ex = Violation(message)
        ex.detail = {k: short(v, 700) for k, v in detail.items()}
        raise ex

    def check(self, condition, message, **detail):
        self.events["oracle_checks"] += 1
        if not condition:
            self.fail(message, **detail)

    def eq(self, got, want, message, **detail):
        from vmon.compare import same
        self.events["oracle_checks"] += 1
        if not same(got, want):
            self.fail(message, got=got, want=want, **detail)

    def raises(self, exc, func, message, **detail):
        """func must raise exactly the exception class (or a subclass)"""
        self.events["oracle_checks"] += 1
        try:
            got = func()
        except exc as ex:
            self.events["expected_exceptions"] += 1
            return ex
        except Exception as ex:
            self.fail(f"{message}: raised {type(ex).__name__}: {ex}", **detail)
        self.fail(f"{message}: nothing raised", got=got, **detail)

    def finding(self, key, what, **detail):
        """a defect that is identified by its mechanism `key`"""
        if key in self.known_keys:
            self.findings[key] = what
            self.events["known_findings_seen"] += 1
            return
        self.fail(f"{key}: {what}", **detail)


class Workload:
    def __init__(
        self, fn, quick, thorough, needs=(), cpu=60, wall=240, name=None
    ):
        self.fn, self.quick, self.thorough = fn, quick, thorough
        self.needs, self.cpu, self.wall = dict(needs), cpu, wall
        self.name = name or fn.__name__.removeprefix("w_")


class Check:
    def __init__(self, prop, workloads, rule, assumptions=(), shards=8,
                 quick_s=60, thorough_s=420, prepare=None):
        self.prop, self.workloads, self.rule = prop, workloads, rule
        self.assumptions, self.shards = list(assumptions), shards
        self.budget = {"quick": quick_s, "thorough": thorough_s}
        self.prepare = prepare


def load_known(prop):
    keys = {}
    if KNOWN_FILE.exists():
        for line in KNOWN_FILE.read_text().splitlines():
            if not line.startswith("known: "):
                continue
            fields = line.split(" ", 3)
            if fields[1] == f"property={prop}":
                keys[fields[2].removeprefix("key=")] = fields[3]
    return keys


def _on_prof(*_):
    raise NoProgress()


def _on_alarm(*_):
    raise Inconclusive("wall-clock watchdog")


RESOURCE = {errno.ENOSPC, errno.ENOMEM, errno.EMFILE, errno.ENFILE,
            errno.EAGAIN}


def run_case(mon, wl, index):
    rng = random.Random(f"{mon.seed}/{mon.prop}/{wl.name}/{index}")
    mon.workload = wl.name
    cwd = os.getcwd()
    case_dir = tempfile.mkdtemp(dir=mon.scratch)
    os.chdir(case_dir)
    signal.signal(signal.SIGPROF, _on_prof)
    signal.signal(signal.SIGALRM, _on_alarm)
    signal.setitimer(signal.ITIMER_PROF, wl.cpu)
    signal.setitimer(signal.ITIMER_REAL, wl.wall)
    try:
        wl.fn(mon, rng)
        return None
    except Violation as ex:
        return {"message": str(ex), "detail": getattr(ex, "detail", {})}
    except NoProgress:
        return {
            "message": f"no progress: the case burned {wl.cpu} s of CPU time "
                       f"without finishing (normal cases take milliseconds)",
            "detail": {"traceback": traceback.format_exc()},
        }
    except (KeyboardInterrupt, SystemExit) as ex:
        return {
            "message": f"{type(ex).__name__} escaped from the code under test",
            "detail": {"traceback": traceback.format_exc()},
        }
    except MemoryError:
        raise Inconclusive("out of memory")
    except OSError as ex:
        if ex.errno in RESOURCE:
            raise Inconclusive(f"out of resources: {ex}")
        return {
            "message": f"unexpected {type(ex).__name__}: {ex}",
            "detail": {"traceback": traceback.format_exc()},
        }
    except Exception as ex:
        return {
            "message": f"unexpected {type(ex).__name__}: {short(str(ex))}",
            "detail": {"traceback": traceback.format_exc()[-2500:]},
        }
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.setitimer(signal.ITIMER_REAL, 0)
        os.chdir(cwd)
        shutil.rmtree(case_dir, ignore_errors=True)
        mon.cases[wl.name] += 1


def _worker(check, mon, shard, shards, outdir, deadline, counts):
    status = outdir / f"{shard}.status"
    violations, inconclusive = [], []
    cover.start()
    reach.start(check.prop)
    try:
        # cases of all workloads are interleaved, so that a time budget that
        # runs out thins every workload rather than dropping the last ones
        plan = []
        for wl in check.workloads:
            n = counts[wl.name]
            mine = [i for i in range(n) if i % shards == shard % shards]
            plan += [((j + 0.5) / max(len(mine), 1), wl, i)
                     for j, i in enumerate(mine)]
        plan.sort(key=lambda p: p[0])
        with status.open("w") as stat:
            for _, wl, i in plan:
                if time.monotonic() > deadline:
                    mon.events["cases_cut_by_time_budget"] += 1
                    break
                stat.seek(0)
                stat.write(f"{wl.name} {i}\n" + " " * 40)
                stat.flush()
                bad = run_case(mon, wl, i)
                if bad is not None:
                    violations.append(bad | {"workload": wl.name, "index": i})
                    break
    except Inconclusive as ex:
        inconclusive.append(
            f"{status.read_text().split(chr(10))[0]}: {ex}"
        )
    out = {
        "events": mon.events, "cases": mon.cases, "distinct": mon.distinct,
        "samples": mon.samples, "findings": mon.findings,
        "violations": violations, "inconclusive": inconclusive,
        "lines": cover.seen,
    }
    tmp = outdir / f"{shard}.tmp"
    tmp.write_bytes(pickle.dumps(out))
    tmp.rename(outdir / f"{shard}.out")


def run(check, tier, seed):
    began = time.monotonic()
    known = load_known(check.prop)
    deadline = began + check.budget[tier]
    # (for sweeps over many changes; registered commands don't use these)
    scale = float(os.environ.get("VMON_SCALE", "1"))
    shards = int(os.environ.get("VMON_SHARDS", check.shards))
    counts = {w.name: max(min(8, getattr(w, tier)),
                          round(getattr(w, tier) * scale))
              for w in check.workloads}
    scratch = Path(tempfile.mkdtemp(prefix=f"vmon-{check.prop}-"))
    sys.stdout.flush()
    sys.stderr.flush()
    pids = {}
    try:
        if check.prepare is not None:
            check.prepare()
        for shard in range(shards):
            pid = os.fork()
            if pid == 0:
                code = 3
                try:
                    os.setpgid(0, 0)
                    # don't outlive the parent (PR_SET_PDEATHSIG)
                    ctypes.CDLL(None).prctl(1, signal.SIGKILL)
                    log = os.open(scratch / f"{shard}.log",
                                  os.O_CREAT | os.O_WRONLY)
                    os.dup2(log, 1)
                    os.dup2(log, 2)
                    mon = Monitor(check.prop, tier, seed, known)
                    mon.scratch = str(scratch)
                    _worker(check, mon, shard, shards, scratch,
                            deadline, counts)
                    code = 0
                except BaseException:
                    traceback.print_exc()
                finally:
                    sys.stdout.flush()
                    sys.stderr.flush()
                    os._exit(code)
            pids[pid] = shard
        hard = began + check.budget[tier] + 300
        results, violations, inconclusive = [], [], []
        waiting = dict(pids)
        while waiting and time.monotonic() < hard:
            pid, stat = os.waitpid(-1, os.WNOHANG)
            if pid == 0:
                time.sleep(0.02)
                continue
            if pid not in waiting:
                continue
            shard = waiting.pop(pid)
            out = scratch / f"{shard}.out"
            if out.exists():
                results.append(pickle.loads(out.read_bytes()))
                if results[-1]["violations"]:
                    # the verdict is known: don't wait for long
                    hard = min(hard, time.monotonic() + 10)
                continue
            where = (scratch / f"{shard}.status")
            where = where.read_text().split("\n")[0] if where.exists() else "?"
            text = (scratch / f"{shard}.log").read_text(errors="replace")
            if os.WIFSIGNALED(stat) and os.WTERMSIG(stat) in (
                signal.SIGSEGV, signal.SIGBUS, signal.SIGABRT, signal.SIGFPE
            ):
                wl, _, ix = where.partition(" ")
                violations.append({
                    "workload": wl, "index": int(ix or -1),
                    "message": f"worker died of signal {os.WTERMSIG(stat)}",
                    "detail": {"log": text[-1500:]},
                })
            else:
                inconclusive.append(
                    f"worker {shard} gave no result (status {stat}, at "
                    f"{where}): {text[-1500:]}"
                )
        for pid, shard in waiting.items():
            try:
                os.killpg(pid, signal.SIGKILL)
            except ProcessLookupError:
                os.kill(pid, signal.SIGKILL)
            os.waitpid(pid, 0)
            for path in Path("/dev/shm").glob(f"vm{pid:06x}x*"):
                path.unlink(missing_ok=True)
            where = (scratch / f"{shard}.status").read_text().split("\n")[0]
            inconclusive.append(f"worker {shard} stuck at {where}")
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    events, cases, distinct = Counter(), Counter(), set()
    samples, findings, lines = {}, {}, set()
    for r in results:
        lines |= r["lines"]
        events += r["events"]
        cases += r["cases"]
        distinct |= r["distinct"]
        for k, v in r["samples"].items():
            samples.setdefault(k, [])
            samples[k] = (samples[k] + v)[:2]
        findings |= r["findings"]
        violations += r["violations"]
        inconclusive += r["inconclusive"]
    needs = Counter()
    cut = events["cases_cut_by_time_budget"] > 0
    for w in check.workloads:
        # on a machine so slow that the budget cuts cases, ask for less
        share = 0.5 * cases[w.name] / max(counts[w.name], 1) if cut else 1
        for k, v in w.needs.items():
            needs[k] += v if share == 1 else int(v * share)
        if cases[w.name] == 0 and not violations:
            inconclusive.append(f"workload {w.name} ran no case")
    if not violations and scale == 1:
        for k, v in needs.items():
            if events[k] < v:
                inconclusive.append(f"monitor saw {events[k]} {k}, needs {v}")
    wall = time.monotonic() - began
    evidence = {
        "property": check.prop, "tier": tier, "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": sum(cases.values()),
            "distinct_nontrivial": len(distinct),
            "rule": check.rule,
            "samples": [f"[{k}] {s}" for k, v in sorted(samples.items())
                        for s in v][:12] or ["(none)"],
            "cases_per_workload": dict(sorted(cases.items())),
            "observed_events": dict(sorted(events.items())),
            "lines_executed_of_the_code_under_test": dict(sorted(
                Counter(name for name, _ in lines).items())),
            "known_findings": sorted(findings),
            "inconclusive": inconclusive[:5],
        },
        "assumptions": check.assumptions,
        "wall_s": round(wall, 3),
        "violations": len(violations),
    }
    (VERIF / "evidence").mkdir(exist_ok=True)
    (VERIF / "evidence" / f"{check.prop}.json").write_text(
        json.dumps(evidence, indent=1, default=str) + "\n"
    )
    if os.environ.get("VMON_LINES"):
        with open(os.environ["VMON_LINES"], "a") as f:
            f.writelines(f"{n}:{ln}\n" for n, ln in sorted(lines))
    for key in sorted(findings):
        print(f"KNOWN-FINDING: property={check.prop} {key}: {findings[key]}")
    print(
        f"{check.prop} {tier} seed={seed}: {sum(cases.values())} cases, "
        f"{len(distinct)} distinct, {events['oracle_checks']} oracle checks, "
        f"{wall:.1f} s"
    )
    if violations:
        seen = set()
        for v in violations:
            if (v["workload"], v["message"][:60]) in seen:
                continue
            seen.add((v["workload"], v["message"][:60]))
            path = save_replay(check.prop, tier, seed, v)
            print(f"VIOLATION property={check.prop} replay={path}")
            print(f"  {v['workload']}[{v['index']}]: {v['message']}")
            for k, d in v["detail"].items():
                print(f"    {k}: {d}")
        return 1
    if inconclusive:
        for i in inconclusive:
            print(f"INCONCLUSIVE property={check.prop} {i}")
        return 2
    return 0


def save_replay(prop, tier, seed, v):
    where = VERIF / "replays"
    where.mkdir(exist_ok=True)
    path = where / f"{prop}-{v['workload']}-{v['index']}-s{seed}.json"
    path.write_text(json.dumps(
        {"property": prop, "tier": tier, "seed": seed} | v, indent=1,
        default=str) + "\n")
    return path


def replay(check, path):
    rec = json.loads(Path(path).read_text())
    mon = Monitor(check.prop, rec["tier"], rec["seed"], load_known(check.prop))
    mon.scratch = tempfile.mkdtemp(prefix="vmon-replay-")
    try:
        wl = [w for w in check.workloads if w.name == rec["workload"]][0]
        if check.prepare is not None:
            check.prepare()
        bad = run_case(mon, wl, rec["index"])
    finally:
        shutil.rmtree(mon.scratch, ignore_errors=True)
    if bad is None:
        print("replay: held on this case")
        return 0
    print(bad["message"])
    for k, d in bad["detail"].items():
        print(f"  {k}: {d}")
    print(f"VIOLATION property={check.prop} replay={path}")
    return 1
