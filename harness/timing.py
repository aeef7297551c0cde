"""C24 options and time limits (titus/options.py, titus/genpy.py ExecutionState, loops)."""
import math
import sys
import time

from harness.lib import *

NAMES = ["timeout", "timeout.begin", "timeout.action", "timeout.end"]
ATTR = {"timeout": "timeout", "timeout.begin": "timeout_begin", "timeout.action": "timeout_action", "timeout.end": "timeout_end"}


class Clock(object):
    """Every clock that the code under test can read gives `now`."""

    class Fake(object):
        def __init__(self, clock):
            self.clock = clock

        def __getattr__(self, n):
            if n in ("time", "monotonic", "perf_counter", "process_time"):
                return self.clock.read
            return getattr(time, n)

    def __init__(self, start):
        self.now, self.saved = start, []

    def read(self):
        return self.now

    def __enter__(self):
        fake = Clock.Fake(self)
        for m in list(sys.modules.values()):
            if getattr(m, "__name__", "").split(".")[0] == "titus":
                for k, v in list(vars(m).items()):
                    if v is time:
                        self.saved.append((m, k, v))
                        setattr(m, k, fake)
                    elif any(v is f for f in (time.time, time.monotonic, time.perf_counter)):
                        self.saved.append((m, k, v))
                        setattr(m, k, self.read)
        return self

    def __exit__(self, *a):
        for m, k, v in self.saved:
            setattr(m, k, v)


def effective(doc, host, name):
    """What an option comes to: the host's word, else the document's, else the general limit, else none."""
    for n in (name, "timeout"):
        for d in (host, doc):
            if n in d:
                return d[n]
    return -1


BAD = [True, False, 1.5, "x", None, [1], {"a": 1}, float("inf"), float("nan"), "1.5", ""]


def resolve(c):
    from titus.options import EngineOptions
    from titus.errors import PFAInitializationException
    doc, host = {}, {}
    for n in NAMES:
        where = c.choice(n, ["", "d", "h", "dh"])
        for w, d in (("d", doc), ("h", host)):
            if w in where:
                d[n] = c.int(n + w)
    doc0, host0 = dict(doc), dict(host)
    form = c.choice("empty", ["as is", "none"])
    o = EngineOptions(None if not doc and form == "none" else doc, None if not host and form == "none" else host)
    for n in NAMES:
        c.check(getattr(o, ATTR[n]) == effective(doc, host, n), n + ": host over document over default")
    c.check(c.and_(c.same(doc, doc0), c.same(host, host0)), "options are not modified")


def refuse(c):
    from titus.options import EngineOptions
    from titus.errors import PFAInitializationException
    n = c.choice("option", NAMES)
    who = c.choice("who", ["document", "host"])
    bad = c.choice("value", list(range(len(BAD))) + ["whole", "fraction"])
    if bad == "fraction":
        x = c.real("x", -1000, 1000)
        c.assume(x != math.floor(x))
    elif bad == "whole":
        x = c.int("x", -1000, 1000) * 1.0
    else:
        x = BAD[bad]
    try:
        o = EngineOptions({n: x}, {}) if who == "document" else EngineOptions({n: 5}, {n: x})
        ok = True
    except PFAInitializationException:
        ok = False
    c.check(ok == (bad == "whole"), "a value that is no whole number is refused, others accepted")
    if ok:
        c.check(getattr(o, ATTR[n]) == x, "a whole number given as a decimal")


# ---------------------------------------------------------------- time limits
TICK = {"log": ["n"]}
INC = {"set": {"n": {"+": ["n", 1]}}}
LOOPS = {
    "while": [{"let": {"n": 0}}, {"while": {"<": ["n", 3]}, "do": [INC, TICK]}],
    "until": [{"let": {"n": 0}}, {"do": [INC, TICK], "until": {">=": ["n", 3]}}],
    "for": [{"for": {"n": 1}, "while": {"<=": ["n", 3]}, "step": {"n": {"+": ["n", 1]}}, "do": [TICK]}],
    "foreach": [{"foreach": "n", "in": {"type": {"type": "array", "items": "int"}, "value": [1, 2, 3]}, "do": [TICK]}],
    "foreach shared": [{"foreach": "n", "in": {"type": {"type": "array", "items": "int"}, "value": [1, 2, 3]}, "do": [TICK], "seq": False}],
    "forkey": [{"forkey": "n", "forval": "m", "in": {"type": {"type": "map", "values": "int"}, "value": {"a": 1, "b": 2, "c": 3}}, "do": [TICK]}],
    "in a function": [{"u.loop": []}],
    "in a try": [{"try": [{"do": [{"let": {"n": 0}}, {"while": {"<": ["n", 3]}, "do": [INC, TICK]}]}]}],
    "in a branch": [{"if": True, "then": [{"let": {"n": 0}}, {"while": {"<": ["n", 3]}, "do": [INC, TICK]}]}],
    "nested": [{"foreach": "k", "in": {"type": {"type": "array", "items": "int"}, "value": [1]}, "do": [{"let": {"n": 0}}, {"while": {"<": ["n", 3]}, "do": [INC, TICK]}]}],
    "in a callback": [{"a.map": [{"type": {"type": "array", "items": "int"}, "value": [7]}, {"params": [{"x": "int"}], "ret": "null", "do": [{"let": {"n": 0}}, {"while": {"<": ["n", 3]}, "do": [INC, TICK]}]}]}],
    "in a condition": [{"if": {"do": [{"let": {"n": 0}}, {"while": {"<": ["n", 3]}, "do": [INC, TICK]}, True]}, "then": [None], "else": [None]}],
    "in an argument": [{"+": [{"do": [{"let": {"n": 0}}, {"while": {"<": ["n", 3]}, "do": [INC, TICK]}, 1]}, 1]}],
    "in a cell update": [{"cell": "c", "to": {"do": [{"let": {"n": 0}}, {"while": {"<": ["n", 3]}, "do": [INC, TICK]}, 1]}}],
    "of steps": [{"for": {"n": 1}, "while": {"<=": ["n", 3]}, "step": {"n": {"u.step": ["n"]}}, "do": [None]}],
    "of conditions": [{"let": {"n": 0}}, {"while": {"u.cond": ["n"]}, "do": [INC]}],
}
FCNS = {"loop": {"params": [], "ret": "null", "do": [{"let": {"n": 0}}, {"while": {"<": ["n", 3]}, "do": [INC, TICK]}, None]},
        "step": {"params": [{"n": "int"}], "ret": "int", "do": [TICK, {"+": ["n", 1]}]},
        "cond": {"params": [{"n": "int"}], "ret": "boolean", "do": [TICK, {"<": ["n", 3]}]}}
ROUTINES = ["begin", "action", "end", "merge"]


def timed(loop, routine):
    def setup():
        doc = {"input": "int", "output": "int", "action": LOOPS[loop] + [5] if routine == "action" else [5], "cells": {"c": {"type": "int", "init": 0, "rollback": True}}, "fcns": FCNS}
        if routine in ("begin", "end"):
            doc[routine] = LOOPS[loop]
        if routine == "merge":
            doc.update(method="fold", zero=0, merge=LOOPS[loop] + [6])
        return make_engine(doc)

    def fn(c, env):
        from titus.options import EngineOptions
        opts, host = {}, {}
        lim = {}
        if c.choice("other limits", [False, True]):
            # the limits of other routines do not matter
            for n in ["timeout.begin", "timeout.action", "timeout.end"]:
                if n != "timeout." + routine:
                    opts[n] = 1
        for n in ["timeout", "timeout." + routine] if routine != "merge" else ["timeout"]:
            if c.choice("has " + n, [True, False]):
                lim[n] = c.int("limit " + n, -5, 100000)
                (opts if c.choice(n + " by", ["document", "host"]) == "document" else host)[n] = lim[n]
        e = env.fresh()
        e.options = EngineOptions(opts, host)
        own = "timeout." + routine
        limit = lim[own] if own in lim else lim.get("timeout", -1)
        # the clock: what it says after each execution of the body (milliseconds since the start)
        T = [0]
        for i in range(3):
            d = c.int("step%d" % i, 0, 100000)
            T.append(T[-1] + d)
        if c.choice("earlier call", [False, True]):
            with Clock(0.0) as clock:
                e.log = lambda x, ns: None
                if routine != "merge":
                    getattr(e, routine)(*([7] if routine == "action" else []))
                else:
                    e.merge(0, 0)
        cell0 = e.cells["c"].value
        seen = []
        base = c.real("start", 0, 100000)
        with Clock(base) as clock:
            def log(x, ns):
                seen.append(1)
                clock.now = base + T[len(seen)] / 1000.0 if len(seen) < 4 else clock.now
            e.log = log
            got = outcome(getattr(e, routine), *([7] if routine == "action" else [1, 2] if routine == "merge" else []))
        over = [c.and_(limit > 0, T[k] > limit) for k in range(4)]
        c.observe("got", got)
        c.observe("bodies", len(seen))
        n = len(seen)
        label = "%s in %s" % (loop, routine)
        if got[0] == "timeout":
            c.check(n >= 1 and n < 4 and over[n], label + ": no timeout before the limit")
        else:
            c.check(got[0] == "ok", label + ": runs")
            c.check(n == (4 if loop == "of conditions" else 3), label + ": runs to the end")
        late = 1 if loop in ("of steps", "of conditions") else 0
        for k in range(1, 3):
            if n > k + late:
                c.check(c.not_(over[k]), label + ": stops once the limit has passed")
        if n <= 3 and loop not in ("of steps", "of conditions"):
            c.check(c.or_(c.not_(c.or_(over[1], over[2])), got[0] == "timeout"), label + ": a run past its limit is a timeout")
        if got[0] == "timeout":
            c.check(e.cells["c"].value == cell0 if routine in ("action", "merge") else True, label + ": state as before")
    return Job("%s in %s" % (loop, routine), fn, setup, bound="3 iterations, any clock readings between them, any limits up to 100000 ms")


def library(name, expr, slow):
    def setup():
        return make_engine({"input": {"type": "array", "items": "int"}, "output": "int", "action": {"a.len": [expr]}})

    def fn(c, env):
        from titus.options import EngineOptions
        e = env.fresh()
        limit = c.int("limit", -5, 100000)
        e.options = EngineOptions({"timeout": limit}, {})
        passed = c.int("passed", 0, 200000)

        class Late(Clock):
            reads = 0

            def read(self):
                self.reads += 1
                return 0.0 if self.reads == 1 else passed / 1000.0
        with Late(0.0) as clock:
            got = outcome(e.action, list(range(7 if "perm" in name else 14 if "comb" in name else 1100)))
        c.check(c.eq(got[0] == "timeout", c.and_(limit > 0, passed > limit)), name + ": long enumerations watch the time")
    return Job("library " + name, fn, setup)


def wiring(c):
    """Options as given to the loaders."""
    from titus.genpy import PFAEngine
    what = c.choice("routine", ["begin", "action", "end"])
    doc = {"input": "int", "output": "int", "action": [5]}
    body = LOOPS["while"]
    doc[what] = body + [5]
    opts, host = {}, {}
    first = c.choice("shorter", [False, True])
    for n in ("timeout", "timeout." + what):
        for d, w in ((opts, "document"), (host, "host")):
            if c.choice(n + w, [False, True]):
                d[n] = 1000 if (w == "host") == first else 3000
    if opts:
        doc["options"] = opts
    how = c.choice("by", ["json", "text", "yaml", "ast"])
    if how == "json":
        e, = PFAEngine.fromJson(doc, options=host)
    elif how == "text":
        e, = PFAEngine.fromJson(json.dumps(doc), options=host)
    elif how == "yaml":
        e, = PFAEngine.fromYaml(json.dumps(doc), options=host)
    else:
        from titus.reader import jsonToAst
        e, = PFAEngine.fromAst(jsonToAst(doc), options=host)
    seen = []
    with Clock(50.0) as clock:
        def log(x, ns):
            seen.append(1)
            clock.now = 50.0 + 2 * len(seen)
        e.log = log
        got = outcome(getattr(e, what), *([7] if what == "action" else []))
    limit = effective(opts, host, "timeout." + what)
    want = "timeout" if 0 < limit < 4000 else "ok"
    c.check(got[0] == want, "options reach the engine")
    c.check(len(seen) == (3 if want == "ok" else 1 if limit < 2000 else 2), "options reach the engine: stops in time")


def jobs(tier):
    deep = tier == "thorough"
    yield Job("options", resolve, None, limit=200, bound="all four options, in the document and from the host, any int values")
    yield Job("invalid options", refuse, None)
    yield Job("options reach engines", wiring, None, limit=200, max_paths=3000)
    for r in ROUTINES:
        for l in LOOPS:
            if l == "in a cell update" and r not in ("action", "merge"):
                continue
            if deep or r == "action" or l in ("while", "foreach", "in a function"):
                yield timed(l, r)
    A1 = {"type": "array", "items": "int"}
    yield library("a.permutations", {"a.permutations": ["input"]}, 7)
    yield library("a.combinations", {"a.combinations": ["input", 4]}, 14)
    yield library("a.slidingWindow", {"a.slidingWindow": ["input", 1, 1]}, 1100)
