"""C14: dynamic functions vs the functions their sources define"""
import functools
import importlib.util
import inspect
import operator
import sys
import types

from dustgoggles import dynamic
from dustgoggles.dynamic import AlreadyLoadedError, Dynamic, UnreadyError
from vmon import gen
from vmon.core import Check, Workload

PARAMS = ["x", "y", "z", "n", "data", "_", "self", "ñ", "func", "source"]
# keyword arguments no parameter can be named after
EXTRA = ["", "two words", "x.y", "class", "é", "__class__", "1", "args",
         "kwargs", "_optionally", "reload", "UPPER", "long" * 30,
         gen.StrSub("sub")]
NAMES = ["f", "g", "process", "_hidden", "__dunder__", "é", "load", "f2"]

# ---- bodies: use `P` for any parameter value; they end by returning or
# raising.  {p} is a parameter, {q} another one
BODIES = [
    "return {p}",
    "return {p}, {q}",
    "return [{p}, {q}] * 2",
    "return repr({p}) + 'é\\n'",
    "return {p} + {q}",
    "return {p} // {q}",
    "return {p}[{q}]",
    "return len({p})",
    "return {p}.missing",
    "raise ValueError({p}, 'text')",
    "raise KeyError('k') from ZeroDivisionError('z')",
    "raise Custom({p})",
    "pass",
    "return [i * 2 for i in range(3) if i != {p}]",
    "return {{i: {p} for i in 'ab'}}",
    "def inner(v):\n    return v, {p}\nreturn inner({q})",
    "return (lambda v: (v, {p}))({q})",
    "total = 0\nfor i in range(4):\n    total += i\n    if total == {p}:\n"
    "        break\nelse:\n    total = -1\nreturn total",
    "try:\n    return 1 / {p}\nexcept ZeroDivisionError:\n    return 'zero'\n"
    "finally:\n    seen.append({q})",
    "global counter\ncounter = counter + 1\nreturn counter",
    "global fresh\nfresh = {p}\nreturn fresh",
    "seen.append(({p}, {q}))\nreturn len(seen)",
    "return offset + 1, helper({p})",
    "return undefined_name",
    "return nth, getsource",
    "return Dynamic if {p} else optionalize",
    "if {p}:\n    return unbound\nunbound = 1",
    "class Local:\n    a = 1\n    def m(me_):\n        return {p}\n"
    "return Local().m()",
    "import math\nreturn math.floor(2.5), {p}",
    "match {p}:\n    case [a, *rest]:\n        return 'list', a\n"
    "    case {{'k': v}}:\n        return 'map', v\n"
    "    case _:\n        return 'other'",
    "if (w := {p}) is not None:\n    return w, 'set'\nreturn 'unset'",
    "out = []\nn2 = 0\ndef bump():\n    nonlocal n2\n    n2 += 1\n"
    "bump()\nbump()\nreturn n2, {p}",
    "return f'{{ {p}!r:>9}}|{{ {q} }}'",
    "\"\"\"documented: 'quotes' and \\\\ \"\"\"\nreturn {p}",
    "assert {p}, 'falsy'\nreturn True",
    "del {p}\nreturn {p}",
    "return locals()",
    "return max({p}, {q})",
    "'''doc'''\n# comment\n\n\nreturn 0x1F, 1_000, b'\\x00', 1e3, ...",
    "yield {p}\nyield {q}\nreturn 3",
    "yield from [{p}, {q}]\nraise RuntimeError('late')",
    "with manager:\n    raise ValueError('inside')\nreturn 'suppressed'",
    "return {p} is {q}",
    "exec('seen.append(5)')\nreturn seen[-1]",
    "def inner(v: int, *, w: 'text' = 1) -> list:\n    pass\n"
    "return sorted(map(repr, inner.__annotations__.items())), {p}",
    "class Box:\n    size: int = 3\n    name: str\n"
    "return repr(Box.__annotations__), Box.size, {p}",
    "def inner():\n    'about inner'\nreturn inner.__doc__, {p}",
    "return __debug__", "return 'tab\there', \"ff\x0chere\", {p}",
    "return 'ls\u2028ps\u2029nel\x85fs\x1c', {p}",
    "return '''a\tb  \n  c\t\nd''', {p}", "return 'nb\xa0sp  two', {p}",
    "from dataclasses import dataclass\n@dataclass\nclass Pair:\n"
    "    a: int\n    b: float = 2.5\n"
    "return Pair(1).b, Pair.__dataclass_fields__['a'].type is int",
    "return '%s' % type(1 / 2), 7 // 2, -7 % 3, 1_0, 0o17",
    "async def inner():\n    return {p}\ntry:\n    inner().send(None)\n"
    "except StopIteration as ex:\n    return ex.value",
    "try:\n    raise ExceptionGroup('g', [ValueError(1), KeyError(2)])\n"
    "except* ValueError as ex:\n    seen.append(len(ex.exceptions))\n"
    "except* KeyError:\n    seen.append('key')\nreturn seen[-1]",
]
INTERRUPTS = ["raise KeyboardInterrupt('stop')", "raise SystemExit(3)",
              "raise GeneratorExit"]
BROKEN = [
    "def f(:", "def f(x)\n    return x", "return 1", "def f(x):\nreturn x",
    "def f(x, x):\n    return x", "x = = 1", "def f(x):\n\treturn 1\n  x",
    "def f(x):\n    break", "def f(x):\n    return 'open", "f(", "'''",
    "def f(x):\n    nonlocal x", "", "x = 1", "# nothing", "def f(x): \x00",
    "  def f(x):\n    return x", "\tdef f(x):\n\t\treturn x",
    "  def f(x):\n      return x\n  ", "def f(x):\n    return 1\n g = 2",
    "def f(*):\n    return 1", "def 1f(x):\n    return x",
]


class Custom(Exception):
    pass


class Manager:
    def __enter__(self):
        return self

    def __exit__(self, kind, *_):
        return kind is ValueError


def helper(v):
    return [v, "helped"]


def make_globals(rng):
    if rng.random() < 0.1:
        return {}
    return {
        "seen": [], "counter": rng.randint(0, 5), "offset": rng.randint(0, 9),
        "helper": helper, "Custom": Custom, "manager": Manager(),
    }


class Source:
    def __init__(self, rng, interrupts=False, name=None):
        n = rng.choice([0, 1, 1, 2, 2, 3, 5])
        names = rng.sample(PARAMS, n)
        kinds = sorted(rng.choice(["po", "pk", "pk", "pk", "va", "ko", "vk"])
                       for _ in names)
        order = ["po", "pk", "va", "ko", "vk"]
        kinds.sort(key=order.index)
        # at most one * and one **
        self.params = []
        for p, k in zip(names, kinds):
            if k in ("va", "vk") and k in [x for _, x in self.params]:
                k = {"va": "ko", "vk": None}[k]
            if k is not None:
                self.params.append((p, k))
        self.params.sort(key=lambda pk: order.index(pk[1]))
        text, starred, last = [], False, None
        for p, k in self.params:
            if last == "po" and k != "po":
                text.append("/")
            if k == "va":
                starred = True
            if k == "ko" and not starred:
                text.append("*")
                starred = True
            text.append({"va": "*", "vk": "**"}.get(k, "") + p)
            last = k
        if last == "po":
            text.append("/")
        self.name = name or rng.choice(NAMES)
        usable = [p for p, _ in self.params] or ["None"]
        pool = BODIES + (INTERRUPTS * 6 if interrupts else [])
        self.body = rng.choice(pool)
        if usable == ["None"]:
            while "del {p}" in self.body:
                self.body = rng.choice(BODIES)
        body = self.body.format(p=rng.choice(usable), q=rng.choice(usable))
        indent = rng.choice(["    ", "  ", "\t"])
        lines = "\n".join(indent + b.replace("    ", indent)
                          for b in body.split("\n"))
        before = rng.choice(["", "", "\n\n", "# comment\n", "'''doc'''\n",
                             "# -*- coding: utf-8 -*-\n",
                             "" if name else
                             "from __future__ import annotations\n"])
        self.text = (f"{before}def {self.name}({', '.join(text)}):\n{lines}"
                     + rng.choice(["", "\n", "\n\n# end\n"]))

    def arguments(self, rng):
        def val():
            if rng.random() < 0.15:
                return gen.rich(rng)
            return rng.choice([0, 1, 2, -3, 2.5, "", "ab", None, True, [],
                               [1, 2], {"k": 1}, (3,), b"x"])
        args, kwargs = [], {}
        for p, k in self.params:
            if k == "po":
                args.append(val())
            elif k == "pk":
                if kwargs or rng.random() < 0.3:
                    kwargs[p] = val()
                else:
                    args.append(val())
            elif k == "va":
                if not kwargs:
                    args += [val() for _ in range(gen.size(
                        rng, [0, 1, 3], 0.02, (20, 70, 300)))]
            elif k == "ko":
                kwargs[p] = val()
            else:
                kwargs |= {n: val() for n in rng.choice(
                    [[], ["extra"], ["a1", "b1"], EXTRA,
                     [f"k{i}" for i in range(300)]])}
        roll = rng.random()
        if roll < 0.06 and args:
            args.pop()
        elif roll < 0.12:
            args.append(val())
        elif roll < 0.16:
            kwargs["unexpected"] = 1
        elif roll < 0.2 and kwargs:
            kwargs.pop(next(iter(kwargs)))
        return args, kwargs


def reference(text, name, globals_):
    ns = dict(globals_)
    exec(compile(text, "", "exec"), ns)
    fn = ns.pop(name)
    return fn, ns


def share_nothing(space):
    if "seen" in space:
        space["seen"] = list(space["seen"])


def clone(x):
    return {list: lambda: [clone(i) for i in x],
            dict: lambda: {k: clone(v) for k, v in x.items()}}.get(
                type(x), lambda: x)()


def outcome(func, args, kwargs):
    """what a call does, generators run to their end"""
    try:
        out = func(*clone(args), **clone(kwargs))
        if isinstance(out, types.GeneratorType):
            items = []
            try:
                while True:
                    items.append(next(out))
            except StopIteration as ex:
                return "generated", items, ex.value
            except Exception as ex:
                return "generated", items, type(ex), str(ex)
        return "returned", out
    except BaseException as ex:
        return ("raised", type(ex), str(ex), type(ex.__cause__),
                type(ex.__context__))


def described(sig):
    return [(p.name, p.kind) for p in sig.parameters.values()]


VISIBLE = ["seen", "counter", "offset", "fresh"]


class Life:
    """one Dynamic and its model"""

    def __init__(self, mon, rng):
        self.mon, self.rng = mon, rng
        self.globals = make_globals(rng)
        self.source = Source(rng, interrupts=True)
        self.optional = rng.random() < 0.4
        self.lazy = rng.random() < 0.5
        self.on_call = rng.random() < 0.7
        self.func = self.space = self.shown = None
        self.errors, self.call_fail, self.compile_fail = [], False, False
        self.trail = [f"optional={self.optional} lazy={self.lazy} "
                      f"on_call={self.on_call}"]
        kw = {}
        if self.optional or rng.random() < 0.5:
            kw["optional"] = self.optional
        if self.lazy or rng.random() < 0.5:
            kw["lazy"] = self.lazy
        if not self.on_call or rng.random() < 0.5:
            kw["load_on_call"] = self.on_call
        self.d = Dynamic(self.source.text, self.globals, **kw)
        if not self.lazy:
            self.model_load()
        mon.ev("lazy" if self.lazy else "eager")

    def model_load(self):
        self.func, self.space = reference(
            self.source.text, self.source.name, self.globals)
        # what the real function works on
        self.real_space = self.globals
        share_nothing(self.space)
        self.loaded = self.source

    def state(self):
        d = self.d
        self.mon.eq(bool(d.call_fail), self.call_fail, "call failure flag",
                    trail=self.trail[-6:], errors=d.errors)
        if self.compile_fail is not None:
            self.mon.eq(bool(d.compile_fail), self.compile_fail,
                        "compile failure flag", trail=self.trail[-6:])
        self.mon.eq([e.get("category") for e in d.errors],
                    [e[0] for e in self.errors], "recorded errors",
                    trail=self.trail[-6:], errors=d.errors)
        for got, (cat, ex) in zip(d.errors, self.errors):
            if cat == "call":
                self.mon.check(
                    ex[0].__name__ in str(got["exception"]) and
                    ex[1] in str(got["exception"]),
                    "recorded exception", got=got, want=ex)
        self.mon.eq(d.func is None, self.func is None,
                    "whether a function is loaded", trail=self.trail[-6:])
        if self.func is not None:
            self.mon.eq(described(inspect.signature(d)),
                        described(inspect.signature(self.func)),
                        "parameters in the signature", src=self.loaded.text)
            self.mon.eq(d.__name__, self.func.__name__, "name")
            self.mon.eq({k: self.real_space.get(k) for k in VISIBLE},
                        {k: self.space.get(k) for k in VISIBLE},
                        "effects on the globals", src=self.loaded.text)

    def op_call(self):
        d, rng = self.d, self.rng
        args, kwargs = (self.loaded if self.func else self.source).arguments(
            rng)
        override = rng.choice([None, None, True, False])
        call = dict(kwargs)
        if override is not None or rng.random() < 0.2:
            call["_optional"] = override
        optional = self.optional if override is None else override
        if self.func is None and not self.on_call:
            self.mon.raises(UnreadyError, lambda: d(*args, **call),
                            "a call that must not load")
            self.mon.ev("unready_calls")
            return
        if self.func is None:
            self.model_load()
            self.mon.ev("loads_on_call")
        want = outcome(self.func, args, kwargs)
        got = outcome(d, args, call)
        if want[0] == "raised" and issubclass(want[1], Exception) and optional:
            self.mon.eq(got, ("returned", None),
                        "an optional call of a failing function",
                        src=self.loaded.text)
            self.errors.append(("call", want[1:]))
            self.call_fail = True
            self.mon.ev("contained_errors")
        else:
            if want[0] == "raised":
                # containment adds no context of its own
                got, want = got[:4], want[:4]
                self.mon.ev("raised" if issubclass(want[1], Exception)
                            else "interrupts")
            self.mon.eq(got, want, "outcome of a call", src=self.loaded.text,
                        args=(args, kwargs))
            self.mon.ev("calls_agreeing")

    def op_load(self):
        d, steps = self.d, self.rng.random() < 0.3
        if self.func is None:
            if steps:
                d.compile_source(False)
                self.mon.check(d.func is None, "compiling defines nothing")
                self.mon.raises(AlreadyLoadedError,
                                lambda: d.compile_source(False),
                                "second compilation")
                d.define()
            else:
                d.load()
            self.model_load()
            self.mon.ev("loads")
        else:
            for again in (d.load, lambda: d.compile_source(False), d.define,
                          lambda: d.load(False))[:4 if steps else 1]:
                self.mon.raises(AlreadyLoadedError, again, "second load")
            self.mon.ev("double_loads")

    def op_reload(self):
        def by_steps():
            self.d.compile_source()
            self.d.define(True)
        self.rng.choice([lambda: self.d.load(True), by_steps,
                         lambda: self.d.load(reload=True)])()
        self.model_load()
        self.mon.ev("reloads")

    def op_unload(self):
        self.d.unload()
        self.func = None
        self.errors, self.call_fail, self.compile_fail = [], False, False
        self.mon.ev("unloads")

    def op_source(self):
        self.source = Source(self.rng, interrupts=True)
        self.d.source = self.source.text
        self.mon.ev("source_changes")

    def op_globals(self):
        self.globals = make_globals(self.rng)
        self.d.globals_ = self.globals
        self.mon.ev("globals_changes")

    def op_option(self):
        self.optional = self.d.optional = not self.optional
        if self.rng.random() < 0.5:
            self.on_call = self.d.load_on_call = not self.on_call

    def op_broken(self):
        """a source that does not compile, then a repaired one"""
        d = self.d
        self.d.source = bad = self.rng.choice(BROKEN)
        had, old = self.func is not None, self.func
        if had:
            # a reload that fails
            trigger, how = (lambda: d.load(True)), "reload"
        elif self.on_call and self.rng.random() < 0.6:
            args, kwargs = self.source.arguments(self.rng)
            trigger, how = (lambda: d(*args, **kwargs)), "call"
        else:
            trigger, how = d.load, "load"
        n = len(d.errors)
        got = outcome(trigger, (), {})
        self.mon.check(got == ("returned", None) or (
            got[0] == "raised" and issubclass(got[1], Exception)),
            f"{how} of a source that does not compile", got=got, src=bad)
        self.mon.check(len(d.errors) > n and
                       d.errors[-1].get("category") == "compile",
                       "a compile error was not recorded", src=bad, how=how,
                       errors=d.errors)
        self.mon.check(bool(d.compile_fail), "compile_fail is not set",
                       src=bad)
        self.mon.ev("compile_errors")
        if not had:
            self.mon.check(d.func is None, "a callable out of a source that "
                           "does not compile", src=bad, got=d.func)
        else:
            # the old function, or none
            self.mon.check(
                d.func is None or
                (d.func.__name__ == old.__name__ and
                 described(inspect.signature(d.func)) ==
                 described(inspect.signature(old))),
                "function after a failed reload", got=d.func)
        if self.rng.random() < 0.5:
            d.unload()
            self.func = None
            self.errors, self.call_fail, self.compile_fail = [], False, False
            self.op_source()
            return
        # the error stays on record; whether the flag does is left open
        self.mon.check(all(e.get("category") == "compile"
                           for e in d.errors[n:]), "recorded errors",
                       errors=d.errors[n:])
        self.errors += [("compile", None)] * (len(d.errors) - n)
        self.compile_fail = None
        self.op_source()
        d.load(reload=True)
        self.model_load()
        self.mon.ev("repaired_sources")

    def run(self, n):
        module = set(vars(dynamic))
        ops = ["call", "call", "call", "call", "load", "reload", "unload",
               "source", "globals", "option", "broken"]
        self.state()
        for _ in range(n):
            op = self.rng.choice(ops)
            self.trail.append(op)
            if op == "call" and self.rng.random() < 0.004:
                for _ in range(self.rng.choice([25, 60, 130])):
                    self.op_call()
                self.mon.ev("call_series")
            getattr(self, f"op_{op}")()
            self.state()
        self.mon.check(set(vars(dynamic)) == module, "a function reached "
                       "into the namespace of dustgoggles.dynamic",
                       new=set(vars(dynamic)) - module)


def w_histories(mon, rng):
    life = Life(mon, rng)
    bodies = [life.source.body]
    life.run(rng.randint(2, 25))
    mon.sig(life.trail, bodies)
    mon.sample(f"{life.trail[:9]} starting from {life.source.text!r}")


def w_sources(mon, rng):
    """breadth over sources: every kind of signature, body and call"""
    src = Source(rng)
    g = make_globals(rng)
    d = Dynamic(src.text, g)
    fn, space = reference(src.text, src.name, g)
    share_nothing(space)
    mon.eq(described(inspect.signature(d)), described(inspect.signature(fn)),
           "parameters in the signature", src=src.text)
    mon.eq(d.__name__, fn.__name__, "name")
    for _ in range(4):
        args, kwargs = src.arguments(rng)
        want, got = outcome(fn, args, kwargs), outcome(d, args, kwargs)
        mon.eq(got, want, "outcome of a call", src=src.text,
               args=(args, kwargs))
        mon.eq({k: g.get(k) for k in VISIBLE},
               {k: space.get(k) for k in VISIBLE}, "effects on globals",
               src=src.text)
        mon.ev("calls_agreeing")
        mon.ev(f"outcome_{want[0]}")
        mon.sig(src.body, [k for _, k in src.params], want[0])


def w_broken(mon, rng):
    """eager construction from a source that does not compile"""
    bad = rng.choice(BROKEN)
    try:
        d = Dynamic(bad, {}, optional=rng.random() < 0.5)
    except Exception:
        mon.ev("refused_sources")
    else:
        mon.check(d.compile_fail is True and d.func is None and
                  d.errors[-1]["category"] == "compile",
                  "an eager Dynamic with a broken source", src=bad)
    mon.ev("compile_errors")
    mon.sig("broken", bad)


COUNTER = [0]


def w_from_function(mon, rng):
    """made from a function of a module"""
    src, other = Source(rng, name="target"), Source(rng, name="unrelated")
    COUNTER[0] += 1
    modname = f"vmon_dynamic_{COUNTER[0]}"
    g = make_globals(rng)
    text = f"{other.text}\n\n{src.text}\n\n\nlast = 1\n"
    with open(f"{modname}.py", "w", encoding="utf-8") as f:
        f.write(text)
    spec = importlib.util.spec_from_file_location(
        modname, f"{modname}.py")
    mod = importlib.util.module_from_spec(spec)
    sys.modules[modname] = mod
    try:
        mod.__dict__.update(g)
        spec.loader.exec_module(mod)
        fn, space = reference(src.text, src.name, g)
        share_nothing(space)
        optional = rng.random() < 0.5
        kw = {"optional": optional} if optional or rng.random() < 0.5 else {}
        if rng.random() < 0.3:
            kw["lazy"] = rng.random() < 0.5
        d = Dynamic.from_function(mod.target, **kw)
        mon.check(d.globals_ is mod.__dict__, "globals of the function")
        mon.check(d.source is not None and src.text.strip().split("def ")[1]
                  .split("\n# end")[0] in d.source,
                  "source of the function", got=d.source, want=src.text)
        loaded = "made"
        for i in range(rng.randint(1, 8)):
            if rng.random() < 0.3:
                d.unload()
                loaded = rng.choice(["unloaded", "loaded"])
                if loaded == "loaded":
                    d.load()
                mon.ev("unloads")
            elif rng.random() < 0.2 and loaded != "unloaded":
                d.load(True)
            args, kwargs = src.arguments(rng)
            want = outcome(fn, args, kwargs)
            got = outcome(d, args, kwargs)
            if optional and want[0] == "raised":
                want = ("returned", None)
                mon.check(bool(d.call_fail) and
                          d.errors[-1]["category"] == "call",
                          "an optional call's error", errors=d.errors)
            mon.eq(got[:4], want[:4], "outcome of a call", src=src.text,
                   args=(args, kwargs), state=loaded)
            mon.eq(described(inspect.signature(d)),
                   described(inspect.signature(fn)), "parameters")
            mon.eq(d.__name__, "target", "name")
            mon.eq({k: mod.__dict__.get(k) for k in VISIBLE},
                   {k: space.get(k) for k in VISIBLE}, "effects on globals")
            mon.ev("from_function_calls")
        mon.sig("from", src.body, [k for _, k in src.params], loaded)
    finally:
        del sys.modules[modname]


def w_findings(mon, rng):
    """limits of building a function out of nothing but its code object"""
    def ok(make, want):
        try:
            return make() == want
        except Exception:
            return False
    if not ok(lambda: Dynamic("def f(x, y=2):\n    return x + y", {})(1), 3):
        mon.finding("parameter-defaults",
                    "defaults of parameters in a source are dropped")
    if not ok(lambda: Dynamic("def f(x, *, y=2):\n    return x + y", {})(1),
              3):
        mon.finding("parameter-defaults",
                    "defaults of parameters in a source are dropped")
    if not ok(lambda: Dynamic(
            "def f(x, k=lambda v: v):\n    return 'f', k(x)", {})(1, len),
            None) and Dynamic("def f(x, k=lambda v: v):\n    return 'f', k",
                              {}).__name__ != "f":
        mon.finding("default-lambda", "a lambda among the defaults of a "
                    "source's function is taken for the function")
    if not ok(lambda: Dynamic(
            "def f(n):\n    return 1 if n < 2 else n * f(n - 1)", {})(5),
            120):
        mon.finding("self-recursion",
                    "a source's function cannot refer to itself by name")
    # without them
    d = Dynamic("def f(x, y):\n    return x + y", {})
    mon.eq(d(1, 2), 3, "plain function")
    mon.eq(Dynamic("def f(n):\n    return 1", {})(5), 1, "plain function")


def w_digsource(mon, rng):
    """the source of functions and of things that hold functions"""
    COUNTER[0] += 1
    modname = f"vmon_digsource_{COUNTER[0]}"
    srcs = [Source(rng, name=f"fn{i}") for i in range(rng.randint(1, 4))]
    texts, chunks = {}, []
    filler = ["", "# a comment", "value = 3", "text = 'def f(): pass'"]
    for s in srcs:
        chunks += [rng.choice(filler) for _ in range(rng.randrange(3))]
        text = s.text.split("# end")[0].strip("\n") + "\n"
        start = text.index("def ")
        start = max(text.rfind("\n", 0, start), 0)
        texts[s.name] = text[start:].lstrip("\n")
        chunks += [text, "", ""]
    methods = {
        "plain": "    def plain(self, v):\n        # plain\n"
                 "        return 'plain', v\n",
        "made": "    @classmethod\n    def made(cls):\n"
                "        return 'made'\n",
        "loose": "    @staticmethod\n    def loose(a, b=')'):\n"
                 "        return a\n",
        "__call__": "    def __call__(self, x):\n        return x, x\n",
    }
    order = list(methods)
    rng.shuffle(order)
    chunks += ["class Holder:\n" + "\n".join(methods[m] for m in order)]
    with open(f"{modname}.py", "w", encoding="utf-8") as f:
        f.write("\n".join(chunks) + "\n")
    spec = importlib.util.spec_from_file_location(modname, f"{modname}.py")
    mod = importlib.util.module_from_spec(spec)
    sys.modules[modname] = mod
    try:
        spec.loader.exec_module(mod)
        holder = mod.Holder()
        for s in srcs:
            fn, want = getattr(mod, s.name), texts[s.name]
            held = [
                ("function", fn), ("partial", functools.partial(fn)),
                ("partial with arguments", functools.partial(fn, 1, k=[2])),
                ("nested partial", functools.partial(
                    functools.partial(fn, 1), 2)),
                ("dynamic", Dynamic.from_function(fn)),
                ("optional dynamic",
                 Dynamic.from_function(fn, optional=True)),
                ("lazy dynamic", Dynamic.from_function(fn, lazy=True)),
                ("bound", types.MethodType(fn, holder)),
                ("holder", types.SimpleNamespace(func=fn)),
            ]
            rng.shuffle(held)
            for kind, obj in held:
                mon.eq(dynamic.digsource(obj), want, f"source of a {kind}")
                mon.ev("sources_dug")
        for name, want in methods.items():
            fn = getattr(holder, name)
            for obj in (fn, functools.partial(fn),
                        functools.partial(fn, 1)):
                mon.eq(dynamic.digsource(obj), want,
                       f"source of method {name}", obj=obj)
                mon.ev("sources_dug")
        mon.eq(dynamic.digsource(Dynamic.from_function(holder)),
               methods["__call__"], "source of a Dynamic of a callable")
        for obj in (len, print, [].append, 5, "text", None, int, mod, {},
                    operator.itemgetter(1), functools.partial(len)):
            mon.raises(TypeError, lambda: dynamic.digsource(obj),
                       "source of what has none", obj=obj)
        mon.sig("digsource", [(s.body, [k for _, k in s.params])
                              for s in srcs])
    finally:
        del sys.modules[modname]


def w_helpers(mon, rng):
    """compile_source, define and get_codechild"""
    src = Source(rng)
    g = make_globals(rng)
    fn, space = reference(src.text, src.name, g)
    share_nothing(space)
    code = dynamic.compile_source(src.text)
    mon.check(isinstance(code, types.CodeType) and code.co_name == src.name,
              "code of the function", got=code)
    real = dynamic.define(code, g)
    args, kwargs = src.arguments(rng)
    want = outcome(fn, args, kwargs)
    mon.eq(outcome(real, args, kwargs), want, "defined function",
           src=src.text)
    module = compile("def a(): pass\nx = 5\ndef b(): pass\ndef c(): pass",
                     "", "exec")
    for i, n in enumerate("abc"):
        mon.eq(dynamic.get_codechild(module, i).co_name, n, "child code")
    mon.eq(dynamic.get_codechild(module).co_name, "a", "first child code")
    mon.ev("calls_agreeing")


CHECK = Check(
    "C14",
    [
        Workload(w_histories, 6000, 250000,
                 {"calls_agreeing": 10000, "contained_errors": 1000,
                  "interrupts": 200, "unready_calls": 500,
                  "loads_on_call": 1000, "double_loads": 500,
                  "reloads": 2000, "unloads": 2000, "compile_errors": 2000,
                  "repaired_sources": 500}),
        Workload(w_sources, 8000, 300000,
                 {"outcome_returned": 5000, "outcome_raised": 2000,
                  "outcome_generated": 300}),
        Workload(w_broken, 100, 500),
        Workload(w_from_function, 800, 20000, {"from_function_calls": 1500}),
        Workload(w_helpers, 800, 20000),
        Workload(w_digsource, 400, 10000, {"sources_dug": 3000}),
        Workload(w_findings, 8, 8),
    ],
    rule="a case is a generated function source (all parameter kinds, 40 "
         "kinds of bodies) loaded, called, reloaded, unloaded and changed at "
         "random, against the same source executed normally; distinct = "
         "distinct (body, parameter kinds, outcome) or (history, body)",
    assumptions=["sources define one function and nothing else",
                 "no parameter is called _optional"],
)
