"""C15: optional wrappers and exception reports vs the exceptions raised"""
import functools
import sys
import traceback

from dustgoggles.dynamic import dontcare, exc_report
from dustgoggles.func import optionalize
from vmon import gen
from vmon.core import Check, Workload


# ---- exceptions
class Plain(Exception):
    pass


class Rich(ValueError):
    def __init__(self, *args, code=3):
        super().__init__(*args)
        self.code = code

    def __str__(self):
        return f"rich {self.code} {self.args}"


class Falsy(Exception):
    def __bool__(self):
        return False

    def __eq__(self, other):
        return True

    __hash__ = Exception.__hash__


class Exit(BaseException):
    pass


class Abort(KeyboardInterrupt):
    pass


def error(rng):
    return rng.choice([
        lambda: ValueError(), lambda: ValueError(gen.text(rng)),
        lambda: KeyError("k"), lambda: KeyError(("a", 1)),
        lambda: OSError(2, "No such file", "x"), lambda: Plain(1, 2),
        lambda: Rich("a", code=7), lambda: Falsy("f"), lambda: StopIteration(5),
        lambda: StopAsyncIteration(), lambda: AssertionError(),
        lambda: MemoryError(), lambda: RecursionError("deep"),
        lambda: UnicodeDecodeError("utf-8", b"\xff", 0, 1, "bad"),
        lambda: ExceptionGroup("g", [ValueError(1), Plain()]),
        lambda: SyntaxError("s", ("file", 3, 1, "text")), lambda: Exception(),
        lambda: ArithmeticError(gen.integer(rng) % 10 ** 9),
        lambda: BlockingIOError(), lambda: TimeoutError(),
        lambda: NotImplementedError(), lambda: EOFError(), lambda: Warning(),
        lambda: UserWarning("w"), lambda: BufferError(), lambda: SystemError(),
    ])()


def leave(rng):
    return rng.choice([
        lambda: KeyboardInterrupt(), lambda: KeyboardInterrupt("x"),
        lambda: SystemExit(), lambda: SystemExit(3), lambda: GeneratorExit(),
        lambda: Exit("e"), lambda: Abort(),
        lambda: BaseExceptionGroup("g", [KeyboardInterrupt()]),
    ])()


# ---- ways to get to it; each takes the rest of the way
def by_def(rest):
    def step():
        x = 1
        return rest()
    return step


def by_lambda(rest):
    return lambda: rest()


def by_comprehension(rest):
    def listing():
        return [i for i in map(lambda _: rest(), [1])][0]
    return listing


def by_generator(rest):
    def produce():
        yield 0
        yield rest()

    def consume():
        return list(produce())[1]
    return consume


def by_method(rest):
    class Worker:
        def work(self):
            return self.inner()

        @staticmethod
        def inner():
            return rest()
    return Worker().work


def by_callable(rest):
    class Call:
        def __call__(self):
            return rest()
    return Call()


def by_builtin(rest):
    def through():
        return sorted([2, 1], key=lambda _: rest())
    return through


def by_partial(rest):
    return functools.partial(lambda _: rest(), 1)


def by_recursion(rest):
    def down(n=12):
        if n:
            return down(n - 1)
        return rest()
    return down


def by_reraise(rest):
    def again():
        try:
            return rest()
        except BaseException as ex:
            if isinstance(ex, Falsy):
                raise
            raise ex
    return again


def by_finally(rest):
    def tidy():
        try:
            return rest()
        finally:
            y = 1
            del y
    return tidy


def by_chain(rest):
    def chained():
        try:
            raise LookupError("first")
        except LookupError:
            return rest()
    return chained


def by_context(rest):
    class Manager:
        def __enter__(self):
            return self

        def __exit__(self, *_):
            return False

    def managed():
        with Manager():
            return rest()
    return managed


def by_property(rest):
    class Has:
        @property
        def value(self):
            return rest()
    return lambda: Has().value


def by_class_body(rest):
    def body():
        class Inner:
            out = rest()
        return Inner.out
    return body


WAYS = [v for k, v in list(globals().items()) if k.startswith("by_")]


def by_source(rng):
    """code with a file name of its own"""
    name = rng.choice(["", "<string>", "made up.py", "é.py", "/x/y.py",
                       __file__])
    space = {"__name__": rng.choice(["__main__", "elsewhere", "json"])}
    if rng.random() < 0.3:
        space = {}
    exec(compile("\n" * rng.randint(0, 300) +
                 "def make(rest):\n    def compiled():\n\n"
                 "        return rest()\n    return compiled", name, "exec"),
         space)
    return space["make"]


def deep(rest, n):
    sys.setrecursionlimit(max(sys.getrecursionlimit(), 8000))

    def descend(left):
        if left == 0:
            return rest()
        return descend(left - 1)
    return lambda: descend(n)


def walk(rng, end):
    """a callable that reaches `end` in some steps"""
    trail = []
    call = end
    n = gen.size(rng, [0], 0.006, (130, 600, 1500, 3000))
    if n:
        # through many frames
        call = deep(call, n)
        trail.append(f"deep {n}")
    for _ in range(rng.choice([0, 1, 1, 2, 3, 5, 10])):
        way = rng.choice(WAYS + [None, None])
        trail.append("source" if way is None else way.__name__[3:])
        call = by_source(rng)(call) if way is None else way(call)
    return call, trail


def frames(exc):
    return [(n, f.f_code.co_filename,
             f.f_code.co_name)
            for f, n in traceback.walk_tb(exc.__traceback__)]


def check_report(mon, report, exc, want, stringified=True):
    if stringified:
        text = report["exception"]
        mon.check(type(text) is str, "exception is not text", got=text)
        mon.check(type(exc).__name__ in text, "type of the exception",
                  got=text, want=type(exc))
        mon.check(str(exc) in text, "message of the exception", got=text,
                  want=str(exc))
    else:
        mon.check(report["exception"] is exc, "the exception itself",
                  got=report["exception"])
    mon.eq([type(report[k]) for k in ("lineno", "filename", "name")],
           [list] * 3, "lists of a report")
    mon.eq(report["lineno"], [w[0] for w in want], "line numbers of frames",
           report=report)
    mon.eq(report["filename"], [w[1] for w in want], "file names of frames",
           report=report)
    mon.eq(len(report["name"]), len(want), "number of function names")
    for got, (_, _, name) in zip(report["name"], want):
        mon.check(type(got) is str and
                  (got == name or got.endswith("." + name)),
                  "function name of a frame", got=got, want=name)
    mon.ev("frames_checked", len(want))
    mon.ev("reports_checked")


def target_function(rng):
    """(function, kind, exc, log of its arguments)"""
    kind = rng.choice(["fine", "fine", "error", "error", "error", "leave"])
    result = rng.choice([None, 0, False, "", [], "value", ValueError("r"),
                         NotImplemented, float("nan")])
    exc = {"error": error, "leave": leave}.get(kind, lambda _: None)(rng)
    log = []

    raised = []

    def end():
        raise exc
    go, trail = walk(rng, end)

    def simple(*args, **kwargs):
        log.append((args, kwargs))
        if kind == "fine":
            return result
        try:
            go()
        except BaseException as ex:
            # (generators turn a StopIteration into something else)
            raised[:] = [ex]
            raise
    return simple, kind, raised, result, log, trail


def arguments(rng):
    return (tuple(rng.choice([1, None, "x", [], ()])
                  for _ in range(rng.choice([0, 1, 3]))),
            {k: rng.randint(0, 9) for k in rng.sample(
                ["a", "func", "exc_callback", "target", "e"],
                rng.choice([0, 0, 1, 2]))})


def w_optionalize(mon, rng):
    func, kind, raised, result, log, trail = target_function(rng)
    seen = []
    # (what becomes of a callback's own error is left open)
    grumble = rng.choice([None] * 6 + [TypeError, ValueError, KeyError])

    def callback(ex=None):
        seen.append((ex, frames(ex) if ex is not None else []))
        if grumble is not None:
            raise grumble("callback")
        return "ignored"
    if rng.random() < 0.2:
        wrapped, callback = optionalize(func), None
    elif rng.random() < 0.5:
        wrapped = optionalize(func, callback)
    else:
        wrapped = optionalize(func, exc_callback=callback)
    for i in range(rng.choice([1, 1, 2, 4])):
        args, kwargs = arguments(rng)
        del seen[:], log[:]
        try:
            got = wrapped(*args, **kwargs)
        except BaseException as ex:
            if kind == "error" and seen and grumble is not None:
                mon.check(len(seen) == 1 and seen[0][0] is raised[0],
                          "calls of a callback that fails", got=seen)
                mon.ev("callbacks_failed")
            else:
                mon.check(kind == "leave", "an error escaped",
                          got=ex, trail=trail)
                mon.check(ex is raised[0], "another exit escaped", got=ex,
                          want=raised)
                mon.check(not seen, "callback of an exit that is no error")
                mon.ev("exits_propagated")
        else:
            mon.check(kind != "leave", "an exit did not propagate",
                      want=raised, got=got)
            mon.check(got is (result if kind == "fine" else None),
                      "result of an optional function", got=got,
                      want=result, kind=kind)
            if callback is not None:
                mon.check(len(seen) == (kind == "error"),
                          "number of callbacks", got=seen, kind=kind)
                if seen:
                    mon.check(seen[0][0] is raised[0],
                              "exception handed over", got=seen[0][0],
                              want=raised)
                    mon.check(len(seen[0][1]) > 0, "its traceback is gone")
                    mon.ev("callbacks")
        mon.eq(log, [(args, kwargs)], "calls of the function itself")
        mon.ev(f"calls_{kind}")
    mon.sig("opt", kind, type(*raised or [0]), trail)
    mon.sample(f"{kind} {raised} by way of {trail}")


def w_dontcare(mon, rng):
    target = [{"old": 1}] if rng.random() < 0.3 else []
    before = list(target)
    for i in range(rng.choice([1, 2, 4])):
        func, kind, raised, result, log, trail = target_function(rng)
        wrapped = dontcare(func, target)
        for _ in range(gen.size(rng, [1, 1, 3], 0.01, (25, 60, 130))):
            args, kwargs = arguments(rng)
            try:
                got = wrapped(*args, **kwargs)
            except BaseException as ex:
                mon.check(kind == "leave" and ex is raised[0], "escaped",
                          got=ex, want=raised)
            else:
                mon.check(kind != "leave", "an exit did not propagate",
                          want=raised)
                mon.check(got is (result if kind == "fine" else None),
                          "result of an optional function", got=got)
            if kind == "error":
                mon.eq(len(target), len(before) + 1,
                       "reports after a failure")
                check_report(mon, target[-1], raised[0], frames(raised[0]))
                # down to where it was raised, up to the wrapper
                mon.check(len(target[-1]["lineno"]) >= 2 and
                          "simple" in "".join(target[-1]["name"]),
                          "frames of the failing function",
                          got=target[-1])
                mon.check(target[-1].get("func") is func and
                          target[-1].get("category") == "call",
                          "labels of a report", got=target[-1])
                before.append(target[-1])
            mon.check(len(target) == len(before) and all(
                a is b for a, b in zip(target, before)),
                "reports without a failure", got=target, kind=kind)
            mon.ev(f"calls_{kind}")
        mon.sig("dont", kind, type(*raised or [0]), trail)


def w_reports(mon, rng):
    """of exceptions in every state"""
    exc = (error if rng.random() < 0.8 else leave)(rng)

    def end():
        raise exc
    go, trail = walk(rng, end)
    state = rng.choice(["raised", "raised", "raised", "never", "twice",
                        "cut", "caused", "later"])
    if state != "never":
        try:
            go()
        except BaseException as ex:
            # (ways such as generators may change StopIteration)
            exc = ex
            if state == "caused":
                try:
                    raise Plain("outer") from ex
                except Plain as outer:
                    exc = outer
        if state == "twice":
            try:
                go()
            except BaseException as ex:
                exc = ex
        elif state == "cut":
            tb = exc.__traceback__
            exc = exc.with_traceback(rng.choice([None, tb.tb_next]))
    x = 0  # noqa: frames have moved on since
    want = frames(exc)
    if rng.random() < 0.1:
        # this only concerns what is printed
        sys.tracebacklimit = rng.choice([0, 1, 2, -1])
        try:
            check_report(mon, exc_report(exc), exc, want)
        finally:
            del sys.tracebacklimit
        mon.ev("limited_prints")
    if rng.random() < 0.5:
        report = exc_report(exc)
        check_report(mon, report, exc, want)
    else:
        stringify = rng.random() < 0.5
        report = (exc_report(exc, stringify) if rng.random() < 0.5 else
                  exc_report(exc, stringify_exception=stringify))
        check_report(mon, report, exc, want, stringify)
    mon.eq(frames(exc), want, "traceback after reporting")
    mon.eq(exc_report(None), {}, "report of no exception")
    mon.sig("rep", state, type(exc), trail, len(want))


CHECK = Check(
    "C15",
    [
        Workload(w_optionalize, 5000, 250000,
                 {"calls_fine": 1000, "calls_error": 1000,
                  "exits_propagated": 500, "callbacks": 1000}),
        Workload(w_dontcare, 2500, 100000),
        Workload(w_reports, 5000, 200000,
                 {"reports_checked": 4000, "frames_checked": 15000}),
    ],
    rule="a case is a function that reaches its return or raise through up "
         "to ten frames of random kinds (generators, methods, compiled "
         "sources, re-raises, ...), wrapped and called, or its exception "
         "reported; reports are compared with the traceback itself; distinct "
         "= distinct (outcome, exception type, ways, depth)",
    assumptions=["exceptions can be turned into text"],
)
