"""C27 chained documents (titus/producer/chain.py) against running the engines one after another."""
import json

from harness.lib import *

AI = {"type": "array", "items": "int"}


def arr(t):
    return {"type": "array", "items": t}


def rec(name, fields, **kw):
    return dict({"type": "record", "name": name, "fields": [{"name": n, "type": t} for n, t in fields]}, **kw)


def doc(action, i="int", o="int", **kw):
    return dict({"input": i, "output": o, "action": action}, **kw)


def plus(a, b):
    return {"+": [a, b]}


def mod(x, n=1000):
    """keeps numbers small, whatever the input"""
    return {"%": [x, n]}


def fcn(params, ret, do):
    return {"params": [{n: t} for n, t in params], "ret": ret, "do": do}


IN = mod("input")
P = rec("P", [("x", "int"), ("s", "string")])
UP = ["null", rec("A", [("x", "int")]), rec("B", [("y", "int")])]
CASES = [{"as": "A", "named": "q", "do": "q.x"}, {"as": "B", "named": "q", "do": {"u-": "q.y"}}, {"as": "null", "named": "q", "do": 5}]
TREE = rec("Tree", [("v", "int"), ("l", ["null", "Tree"]), ("r", ["null", "Tree"])])
EN = {"type": "enum", "name": "En", "symbols": ["one", "two", "three"]}
FX = {"type": "fixed", "name": "Fx", "size": 2}

# steps from int to int, one per kind of expression or section
STEPS = {
    "plain": doc(plus("input", 1)),
    "locals": doc([{"let": {"z": IN, "w": 2}}, {"set": {"z": plus("z", "w")}}, {"do": [{"let": {"k": 1}}, {"set": {"w": plus("w", "k")}}]}, {"*": ["z", "w"]}]),
    "if": doc({"if": {">": ["input", 3]}, "then": {"-": ["input", 1]}, "else": 7}),
    "cond": doc({"cond": [{"if": {">": ["input", 3]}, "then": 1}, {"if": {"<": ["input", 0]}, "then": [{"let": {"z": IN}}, "z"]}], "else": 3}),
    "while": doc([{"let": {"n": mod("input", 3), "s": 0}}, {"while": {">": ["n", 0]}, "do": [{"set": {"s": plus("s", "n"), "n": {"-": ["n", 1]}}}]}, "s"]),
    "do until": doc([{"let": {"n": mod("input", 3)}}, {"do": [{"set": {"n": {"-": ["n", 1]}}}], "until": {"<": ["n", 0]}}, "n"]),
    "for": doc([{"let": {"s": 0}}, {"for": {"i": 0}, "while": {"<": ["i", mod("input", 3)]}, "step": {"i": plus("i", 1)}, "do": {"set": {"s": plus("s", plus("i", 1))}}}, "s"]),
    "foreach": doc([{"let": {"s": 0, "xs": {"type": AI, "new": ["input", 2, IN]}}}, {"foreach": "x", "in": "xs", "do": {"set": {"s": plus("s", mod("x"))}}, "seq": True}, "s"]),
    "forkey": doc([{"let": {"s": 0}}, {"forkey": "k", "forval": "v", "in": {"type": {"type": "map", "values": "int"}, "new": {"a": IN, "b": 4}}, "do": {"set": {"s": plus("s", "v")}}}, "s"]),
    "user function": doc({"u.f": [IN, 3]}, fcns={"f": fcn([("x", "int"), ("y", "int")], "int", {"u.g": {"*": ["x", "y"]}}), "g": fcn([("input", "int")], "int", plus("input", 1))}),
    "recursion": doc({"u.f": [mod("input", 4)]}, fcns={"f": fcn([("n", "int")], "int", {"if": {"<=": ["n", 0]}, "then": 1, "else": {"*": ["n", {"u.f": [{"-": ["n", 1]}]}]}})}),
    "function argument": doc({"a.sum": {"a.map": [{"type": AI, "new": [IN, 2]}, fcn([("x", "int")], "int", {"u.f": "x"})]}}, fcns={"f": fcn([("x", "int")], "int", plus("x", 5))}),
    "function reference": doc({"a.sum": {"a.map": [{"type": AI, "new": [IN, 2]}, {"fcn": "u.f"}]}}, fcns={"f": fcn([("x", "int")], "int", plus("x", 5))}),
    "library reference": doc({"s.len": {"a.reduce": [{"type": arr("string"), "new": [["ab"], ["c"], ["de"]]}, {"fcn": "s.concat"}]}}),
    "filled reference": doc({"a.sum": {"a.map": [{"type": AI, "new": [IN, 2]}, {"fcn": "u.f", "fill": {"y": IN}}]}}, fcns={"f": fcn([("x", "int"), ("y", "int")], "int", plus("x", "y"))}),
    "function names": doc({"u.action": {"u.f": IN}}, fcns={"action": fcn([("name", "int")], "int", plus("name", 5)), "f": fcn([("version", "int"), ], "int", plus("version", 1))}),
    "cell": doc({"cell": "n", "to": plus({"cell": "n"}, IN)}, cells={"n": {"type": "int", "init": 3}}),
    "cell function": doc([{"cell": "n", "to": {"fcn": "u.f"}}, plus({"cell": "n"}, IN)], cells={"n": {"type": "int", "init": 3}}, fcns={"f": fcn([("x", "int")], "int", plus("x", 2))}),
    "cell inline function": doc([{"cell": "n", "to": fcn([("o", "int")], "int", {"u.f": "o"})}, plus({"cell": "n"}, IN)], cells={"n": {"type": "int", "init": 3}}, fcns={"f": fcn([("x", "int")], "int", plus("x", 2))}),
    "record cell": doc([{"cell": "c", "path": [{"string": "p"}, {"string": "x"}], "to": IN}, plus({"cell": "c", "path": [{"string": "n"}]}, {"cell": "c", "path": [{"string": "p"}, {"string": "x"}]})],
                       cells={"c": {"type": rec("C", [("n", "int"), ("p", P)]), "init": {"n": 4, "p": {"x": 1, "s": "hey"}}}}),
    "union cell": doc(plus(IN, {"cast": {"cell": "c"}, "cases": CASES}), cells={"c": {"type": UP, "init": {"B": {"y": 9}}}}),
    "tree cell": doc([{"ifnotnull": {"l": {"cell": "c", "path": [["l"]]}}, "then": plus("l.v", IN), "else": 0}],
                     cells={"c": {"type": TREE, "init": {"v": 1, "l": {"Tree": {"v": 2, "l": None, "r": None}}, "r": None}}}),
    "two cells": doc([{"cell": "a", "to": IN}, {"cell": "b", "path": [["k"]], "to": plus({"cell": "a"}, {"cell": "b", "path": [["k"]]})}, {"cell": "b", "path": [["k"]]}],
                     cells={"a": {"type": "int", "init": 1}, "b": {"type": {"type": "map", "values": "int"}, "init": {"k": 2, "j": 5}}}),
    "enum cell": doc(plus(IN, {"enum.toInt": {"cell": "c"}}), cells={"c": {"type": EN, "init": "two"}}),
    "pool": doc([{"let": {"k": {"if": {">": ["input", 0]}, "then": {"string": "pos"}, "else": {"string": "neg"}}}}, {"pool": "p", "path": ["k"], "to": fcn([("o", "int")], "int", plus("o", 1)), "init": IN},
                 {"pool": "p", "path": ["k"]}], pools={"p": {"type": "int", "init": {"pos": 10}}}),
    "pool delete": doc([{"let": {"k": {"if": {">": ["input", 0]}, "then": {"string": "pos"}, "else": {"string": "neg"}}}}, {"pool": "p", "path": ["k"], "to": plus(IN, 1), "init": IN}, {"let": {"r": {"pool": "p", "path": ["k"]}}},
                        {"pool": "p", "del": ["neg"]}, "r"], pools={"p": {"type": "int", "init": {"neg": 3}}}),
    "record pool": doc([{"pool": "p", "path": [["k"], ["x"]], "to": IN, "init": {"type": "P", "new": {"x": 3, "s": ["a"]}}}, {"pool": "p", "path": [["k"], ["x"]]}], pools={"p": {"type": P, "init": {"z": {"x": 1, "s": "q"}}}}),
    "union pool": doc(plus(IN, {"cast": {"pool": "p", "path": [["k"]]}, "cases": CASES}), pools={"p": {"type": UP, "init": {"k": {"A": {"x": 8}}, "j": None}}}),
    "record literal": doc(plus(IN, {"attr": {"type": P, "value": {"x": 8, "s": "h"}}, "path": [["x"]]})),
    "union literal": doc(plus(IN, {"cast": {"type": UP, "value": {"B": {"y": 4}}}, "cases": CASES})),
    "literals": doc(plus(IN, plus({"a.len": {"type": AI, "value": [1, 2]}}, plus({"map.len": {"type": {"type": "map", "values": P}, "value": {"a": {"x": 1, "s": "b"}}}}, {"s.len": {"string": "hello"}})))),
    "enum literal": doc(plus(IN, {"enum.toInt": {"type": EN, "value": "three"}})),
    "fixed literal": doc(plus(IN, {"bytes.len": {"fixed.toBytes": {"type": FX, "value": "ab"}}})),
    "new records": doc([{"let": {"ps": {"type": arr(P), "new": [{"type": "P", "new": {"x": IN, "s": ["a"]}}, {"type": "P", "new": {"x": 2, "s": ["b"]}}]}}}, plus("ps.0.x", "ps.1.x")]),
    "new map": doc([{"let": {"ps": {"type": {"type": "map", "values": P}, "new": {"a": {"type": "P", "new": {"x": IN, "s": ["a"]}}}}}}, "ps.a.x"]),
    "attr to": doc([{"let": {"p": {"type": P, "new": {"x": 1, "s": ["a"]}}}}, {"set": {"p": {"attr": "p", "path": [["x"]], "to": IN}}}, {"attr": {"attr": "p", "path": [["x"]], "to": fcn([("o", "int")], "int", plus("o", 1))}, "path": [["x"]]}]),
    "cast": doc([{"let": {"u": {"type": arr(UP), "new": [{"type": "A", "new": {"x": IN}}, {"type": "B", "new": {"y": 4}}, None]}, "s": 0}},
                 {"foreach": "v", "in": "u", "do": {"set": {"s": plus("s", {"cast": "v", "cases": CASES})}}, "seq": True}, "s"]),
    "partial cast": doc([{"let": {"s": 0}}, {"cast": {"type": UP, "value": {"A": {"x": 3}}}, "cases": [{"as": "A", "named": "q", "do": {"set": {"s": plus("q.x", IN)}}}], "partial": True}, "s"]),
    "upcast": doc([{"let": {"s": {"upcast": {"type": "A", "new": {"x": IN}}, "as": UP}}}, {"cast": "s", "cases": CASES}], cells={"c": {"type": UP, "init": None}}),
    "ifnotnull": doc([{"let": {"u": {"type": ["int", "null"], "value": {"int": 3}}}}, {"ifnotnull": {"v": "u"}, "then": plus("v", IN), "else": 0}]),
    "pack": doc({"unpack": {"pack": [{"int": "input"}]}, "format": [{"v": "int"}], "then": "v", "else": 0}),
    "doc and log": doc([{"doc": "hello"}, {"log": ["input", {"u.f": 3}], "namespace": "here"}, "input"], fcns={"f": fcn([("x", "int")], "int", plus("x", 2))}),
    "error": doc([{"if": {">": ["input", 5]}, "then": {"error": "too big", "code": -7}}, "input"]),
    "try": doc([{"ifnotnull": {"v": {"try": {"u.f": "input"}, "filter": ["bad"]}}, "then": "v", "else": -1}],
               fcns={"f": fcn([("x", "int")], "int", [{"if": {">": ["x", 5]}, "then": {"error": "bad", "code": -7}}, "x"])}),
    "counters": doc(plus(IN, {"cast.int": plus("actionsStarted", "actionsFinished")}), end={"log": ["actionsFinished", "actionsStarted"]}),
    "instance and metadata": doc(plus(IN, plus("instance", {"map.len": "metadata"}))),
    "begin and end": doc(plus(IN, {"cell": "n"}), cells={"n": {"type": "int", "init": 3}}, begin=[{"let": {"q": 7}}, {"cell": "n", "to": plus("q", "instance")}, {"log": [{"cell": "n"}]}],
                         end=[{"let": {"q": {"cell": "n"}}}, {"log": ["q", {"u.f": "q"}]}], fcns={"f": fcn([("x", "int")], "int", plus("x", 2))}),
    "conditional begin": doc(IN, cells={"n": {"type": P, "init": {"x": 1, "s": "a"}}}, begin=[{"let": {"q": {"type": P, "value": {"x": 4, "s": "b"}}}}, {"cell": "n", "to": "q"}],
                             end=[{"foreach": "q", "in": {"type": AI, "value": [1, 2]}, "do": {"log": ["q", {"cell": "n", "path": [["x"]]}]}}]),
    "emit": doc([{"emit": IN}, {"if": {">": ["input", 2]}, "then": {"emit": plus(IN, 100)}}], method="emit"),
    "emit nothing": doc({"if": {">": ["input", 2]}, "then": {"emit": IN}}, method="emit"),
    "emit in function": doc({"u.g": IN}, method="emit", fcns={"g": fcn([("x", "int")], "null", [{"emit": "x"}, {"emit": plus("x", 7)}])}),
    "emit by reference": doc({"a.map": [{"type": AI, "new": ["input", 4]}, {"fcn": "emit"}]}, method="emit"),
    "emit by user reference": doc({"a.map": [{"type": AI, "new": [IN, 4]}, {"fcn": "u.g"}]}, method="emit", fcns={"g": fcn([("x", "int")], "null", [{"emit": plus("x", 1)}])}),
    "emit in loop": doc([{"foreach": "x", "in": {"type": AI, "new": [IN, 4]}, "do": {"emit": {"u.f": "x"}}}, {"cell": "n", "to": plus({"cell": "n"}, 1)}, {"emit": {"cell": "n"}}], method="emit",
                        cells={"n": {"type": "int", "init": 0}}, fcns={"f": fcn([("x", "int")], "int", plus("x", 2))}),
    "emit in end": doc({"emit": "input"}, method="emit", end={"u.g": 7}, fcns={"g": fcn([("x", "int")], "null", {"emit": "x"})}),
}
SPECIAL = {"counters", "emit in end"}

LIKE = ["null", rec("A", [("x", "int")]), rec("B", [("x", "int")])]

# types that may stand between two steps: produce (from int), pass on, consume (to int)
LINKS = {
    "record": (P, {"type": "P", "new": {"x": IN, "s": ["a"]}}, {"attr": "input", "path": [["x"]], "to": plus(mod("input.x"), 1)}, plus(mod("input.x"), {"s.len": "input.s"})),
    "other names": (P, {"type": "P", "new": {"x": IN, "s": ["a"]}}, {"type": "P", "new": {"x": {"if": {">": ["input.x", 0]}, "then": 1, "else": 2}, "s": "input.s"}}, "input.x"),
    "namespace": (rec("com.a.P", [("x", "int")]), {"type": "com.a.P", "new": {"x": IN}}, {"attr": "input", "path": [["x"]], "to": 4}, "input.x"),
    "tree": (TREE, {"type": "Tree", "new": {"v": IN, "l": None, "r": {"type": "Tree", "new": {"v": 2, "l": None, "r": None}}}},
             {"type": "Tree", "new": {"v": "input.v", "l": "input", "r": None}}, {"ifnotnull": {"l": "input.l"}, "then": "l.v", "else": {"u-": mod("input.v")}}),
    "twice": (rec("Two", [("a", P), ("b", "P")]), {"type": "Two", "new": {"a": {"type": "P", "new": {"x": IN, "s": ["a"]}}, "b": {"type": "P", "new": {"x": 4, "s": ["a"]}}}},
              {"type": "Two", "new": {"a": "input.b", "b": "input.a"}}, "input.a.x"),
    "union": (["null", "int"], {"if": {">": ["input", 1]}, "then": "input", "else": None}, "input", {"ifnotnull": {"v": "input"}, "then": "v", "else": -1}),
    "union of records": (UP, {"if": {">": ["input", 1]}, "then": {"upcast": {"type": "A", "new": {"x": IN}}, "as": UP}, "else": {"upcast": {"type": "B", "new": {"y": IN}}, "as": UP}}, "input", {"cast": "input", "cases": CASES}),
    "union of like records": (LIKE, {"if": {">": ["input", 1]}, "then": {"upcast": {"type": "A", "new": {"x": IN}}, "as": LIKE}, "else": {"upcast": {"type": "B", "new": {"x": IN}}, "as": LIKE}}, "input",
                              {"cast": "input", "cases": [CASES[0], {"as": "B", "named": "q", "do": {"u-": "q.x"}}, CASES[2]]}),
    "array of unions": (arr(UP), {"type": arr(UP), "new": [{"type": "A", "new": {"x": IN}}, None]}, "input", plus({"a.len": "input"}, {"cast": {"a.head": "input"}, "cases": CASES})),
    "enum": (EN, {"if": {">": ["input", 1]}, "then": {"type": EN, "value": "two"}, "else": {"type": "En", "value": "three"}}, "input", {"enum.toInt": "input"}),
    "enums in record": (rec("R", [("a", EN), ("b", "En")]), {"type": "R", "new": {"a": {"type": "En", "value": "one"}, "b": {"type": "En", "value": "two"}}}, {"type": "R", "new": {"a": "input.b", "b": "input.a"}},
                        plus({"enum.toInt": "input.a"}, {"*": [10, {"enum.toInt": "input.b"}]})),
    "fixed": (FX, {"type": "Fx", "value": "xy"}, "input", {"bytes.len": {"fixed.toBytes": "input"}}),
    "map of records": ({"type": "map", "values": P}, {"type": {"type": "map", "values": P}, "new": {"a": {"type": "P", "new": {"x": IN, "s": ["a"]}}}}, "input", plus({"map.len": "input"}, "input.a.x")),
    "array": (arr(arr("int")), {"type": arr(arr("int")), "new": [{"type": AI, "new": [IN]}, {"type": AI, "new": []}]}, {"a.reverse": "input"}, {"a.len": {"a.flatten": "input"}}),
    "string": ("string", {"if": {">": ["input", 1]}, "then": {"string": "hello"}, "else": {"string": "there"}}, {"s.concat": ["input", ["!"]]}, {"s.len": "input"}),
    "double": ("double", {"/": ["input", 2]}, {"*": ["input", 4]}, {"if": {">": ["input", 0]}, "then": 1, "else": 2}),
    "boolean": ("boolean", {">": ["input", 1]}, {"!": "input"}, {"if": "input", "then": 1, "else": 2}),
    "bytes": ("bytes", {"pack": [{"int": "input"}]}, "input", {"unpack": "input", "format": [{"v": "int"}], "then": "v", "else": 0}),
    "long": ("long", plus("input", {"long": 1}), plus("input", 1), {"if": {">": ["input", 0]}, "then": 1, "else": 2}),
    "float": ("float", {"cast.float": "input"}, "input", {"if": {">": ["input", 0]}, "then": 1, "else": 2}),
    "null": ("null", None, "input", 3),
}


def renamed(t, f):
    if isinstance(t, list):
        return [renamed(x, f) for x in t]
    if isinstance(t, dict):
        return dict((k, renamed(v, f) if k not in ("symbols", "s") else v) for k, v in t.items())
    return f(t) if isinstance(t, str) else t


class Separately(object):
    """The engines, each fed with what the one before puts out."""

    def __init__(self, docs, version=None):
        self.engines = [make_engine(d) for d in docs]
        self.inputs = [d["input"] for d in docs]
        if version is not None:
            for e in self.engines:
                e.e.version = version

    def fresh(self, log):
        self.out, self.es = [], [x.fresh() for x in self.engines]
        for k, e in enumerate(self.es):
            e.log = lambda xs, namespace=None: log.append(list(xs))
            if e.config.method == "emit":
                e.emit = (lambda k: lambda x: self.feed(k + 1, x))(k)
        return self

    def feed(self, k, x):
        if k == len(self.es):
            self.out.append(x)
            return
        r = self.es[k].action(tagged(x, self.inputs[k]))
        if self.es[k].config.method != "emit":
            self.feed(k + 1, r)

    def begin(self):
        for e in self.es:
            e.begin()

    def end(self):
        for e in self.es:
            e.end()


class Chained(object):
    def __init__(self, e):
        self.e = e

    def fresh(self, log):
        self.out, e = [], self.e.fresh()
        self.emits = e.config.method == "emit"
        e.log = lambda xs, namespace=None: log.append(list(xs))
        e.emit = self.out.append
        return self

    def begin(self):
        self.e.e.begin()

    def feed(self, k, x):
        r = self.e.e.action(x)
        if not self.emits:
            self.out.append(r)

    def end(self):
        self.e.e.end()


TAGS = "int", "long", "float", "double", "string", "bytes", "array", "map", "A", "B", "Tree", "En", "AA", "BB", "Shrub"


def untag(x):
    """union values by content: tagged or not, and the names the chain gives to the steps' own types do not matter"""
    if isinstance(x, dict):
        if len(x) == 1:
            k, = list(x.keys())
            if k in TAGS or k.split("_")[-1] in TAGS and k.startswith("Step"):
                return untag(x[k])
        return dict((k, untag(v)) for k, v in x.items())
    if isinstance(x, (list, tuple)):
        return [untag(y) for y in x]
    return x


def tagged(x, t):
    """a value as the next engine takes it"""
    if isinstance(t, list):
        if x is None or isinstance(x, dict) and len(x) == 1 and list(x.keys())[0] in TAGS:
            return x
        if isinstance(x, dict):
            for alt in t:
                if isinstance(alt, dict) and alt["type"] == "record" and sorted(f["name"] for f in alt["fields"]) == sorted(x.keys()):
                    return {alt["name"]: tagged(x, alt)}
        return x
    if isinstance(t, dict) and t["type"] == "array":
        return [tagged(y, t["items"]) for y in x]
    return x


def chained(docs, how=0, **kw):
    from titus.producer import chain
    from titus.genpy import PFAEngine
    from titus.reader import jsonToAst
    if how == 0:
        return Eng(PFAEngine.fromJson(chain.jsonNode(docs, **kw))[0])
    if how == 1:
        return Eng(PFAEngine.fromJson(chain.json([json.dumps(d) for d in docs], lineNumbers=False, **kw))[0])
    if how == 2:
        return Eng(chain.engine([jsonToAst(d) for d in docs], **kw)[0])
    return Eng(PFAEngine.fromAst(chain.ast(docs, **kw))[0])


def use(x, inputs):
    """what happened: begin, actions, end"""
    x.begin()
    for v in inputs:
        x.feed(0, v)
    x.end()
    return x.out


def compare(c, ref, ch, docs, inputs, label):
    logs = [], []
    a = outcome(use, ref.fresh(logs[0]), inputs)
    b = outcome(use, ch.fresh(logs[1]), copy_tree(inputs))
    c.observe(label + ".out", b[0])
    c.check(a[0] == b[0], label + ": outcome")
    if a[0] == "ok":
        c.check(c.same(untag(a[1]), untag(b[1])), label + ": outputs")
    else:
        c.check(a[1] == b[1], label + ": error code")
    c.check(c.same(untag(ref.out), untag(ch.out)), label + ": outputs so far")
    c.check(c.same(logs[0], logs[1]), label + ": logs")
    if a[0] == "ok":
        for k, e in enumerate(ref.es):
            name = "step%d_%s_" % (k + 1, e.config.name)
            for kind in ("cells", "pools"):
                mine, theirs = getattr(e, kind), getattr(ch.e.e, kind)
                for n in mine:
                    c.check(name + n in theirs, label + ": state is kept")
                    if name + n in theirs:
                        c.check(c.same(untag(mine[n].value), untag(theirs[name + n].value)), label + ": state of " + kind)


def chain_job(name, chains, given=None, n=2, version=None, **kw):
    """chains: label -> documents"""
    def setup():
        out = []
        for k, (label, docs) in enumerate(sorted(chains.items())):
            how = k % 4
            docs = [dict(d, name="Eng" if k % 2 else "E%d" % i) for i, d in enumerate(docs)]
            extra = {} if version is None else {"version": version}
            out.append((label, Separately(docs, version), Chained(chained(docs, how, **extra)), docs))
        return out

    def fn(c, env):
        label, ref, ch, docs = env[c.choice("chain", list(range(len(env))))]
        inputs = [given(c, "in%d" % i) if given else c.int("in%d" % i) for i in range(n)]
        compare(c, ref, ch, docs, inputs, name + " " + label)
    return Job(name, fn, setup, **kw)


def types():
    """pairs of types: alike, or different in one place"""
    out = ["null", "boolean", "int", "long", "float", "double", "string", "bytes"]
    out += [arr("int"), arr("long"), arr(["null", "int"]), {"type": "map", "values": "int"}, {"type": "map", "values": "string"}, arr(arr("int")), arr({"type": "map", "values": "int"})]
    out += [["null", "int"], ["int", "null"], ["null", "int", "string"], ["null", "string"], ["int", "string"], ["null", "long"]]
    out += [EN, dict(EN, symbols=["one", "two"]), dict(EN, symbols=["two", "one", "three"]), FX, dict(FX, size=3)]
    out += [P, rec("P", [("x", "int")]), rec("P", [("s", "string"), ("x", "int")]), rec("P", [("x", "int"), ("t", "string")]), rec("P", [("x", "long"), ("s", "string")]), rec("P", [("x", "int"), ("s", "string"), ("z", "null")])]
    out += [TREE, rec("Tree", [("v", "int"), ("l", ["null", "Tree"]), ("r", ["null", rec("Other", [("v", "int")])])]), rec("Tree", [("v", "int"), ("l", ["null", "Tree"])]),
            rec("Tree", [("v", "long"), ("l", ["null", "Tree"]), ("r", ["null", "Tree"])])]
    out += [UP, [UP[0], UP[1]], [UP[1], UP[2]], ["null", UP[1], rec("B", [("y", "long")])], ["null", UP[1], rec("B", [("x", "int")])], arr(UP), arr(P), rec("Two", [("a", P), ("b", "P")]),
            rec("Two", [("a", P), ("b", rec("P2", [("x", "int"), ("s", "string")]))]), rec("Two", [("a", P), ("b", rec("P2", [("x", "int")]))]), rec("Two", [("b", P), ("a", "P")])]
    return out


def shape(t, names, inside=()):
    """the structure of a type, whatever its named types are called"""
    if isinstance(t, list):
        return ("union", tuple(sorted([shape(x, names, inside) for x in t], key=repr)))
    if isinstance(t, dict):
        k = t["type"]
        if k == "array":
            return ("array", shape(t["items"], names, inside))
        if k == "map":
            return ("map", shape(t["values"], names, inside))
        if k == "record":
            names[t["name"]] = t
            if t["name"] in inside:
                return ("back", len(inside) - inside.index(t["name"]))
            return ("record", tuple((f["name"], shape(f["type"], names, inside + (t["name"],))) for f in t["fields"]))
        if k == "enum":
            names[t["name"]] = t
            return ("enum", tuple(t["symbols"]))
        if k == "fixed":
            names[t["name"]] = t
            return ("fixed", t["size"])
        return shape(k, names, inside)
    return shape(names[t], names, inside) if t in names else t


def twins(t):
    """two types of the same structure in one place after another"""
    return isinstance(t, dict) and t.get("name") == "Two" and len(shape(t, {})[1]) == 2 and t["fields"][1]["type"] not in ("P",) and shape(t, {})[1][0][1] == shape(t, {})[1][1][1]


def called(t, suffix):
    """the same type with other names"""
    mine = set()

    def walk(x):
        if isinstance(x, list):
            return [walk(y) for y in x]
        if isinstance(x, dict):
            if x["type"] in ("record", "enum", "fixed"):
                mine.add(x["name"])
                out = dict(x, name=x["name"] + suffix)
                if x["type"] == "record":
                    out["fields"] = [dict(f, type=walk(f["type"])) for f in x["fields"]]
                return out
            return dict((k, walk(v) if k in ("items", "values") else v) for k, v in x.items())
        return x + suffix if x in mine else x
    return walk(t)


def refusal_fn(c, env):
    from titus.producer import chain
    ts = types()
    a = ts[c.choice("first", list(range(len(ts))))]
    b = ts[c.choice("second", list(range(len(ts))))]
    ren = c.choice("names", [False, True])
    second = called(copy.deepcopy(b), "x") if ren else copy.deepcopy(b)
    try:
        chain.ast([same_type(a), same_type(second)], check=False)
        ok = True
    except chain.PFAChainError:
        ok = False
    # no type of the second document stands for two types of the first
    want = shape(a, {}) == shape(b, {}) and not (twins(a) and not twins(b))
    c.check(ok == want, "accepted exactly when the output and input types agree")
    # and in the middle of a chain
    try:
        chain.ast([same_type("int"), {"input": "int", "output": a, "action": {"error": "none"}}, {"input": second, "output": "int", "action": 3}], check=False)
        ok = True
    except chain.PFAChainError:
        ok = False
    c.check(ok == want, "in the middle: accepted exactly when the output and input types agree")


def same_type(t):
    return {"input": t, "output": t if isinstance(t, str) else once(t, set()), "action": "input"}


def header_fn(c, env):
    from titus.producer import chain
    n = c.choice("name", [None, "Mine"])
    version = c.choice("version", [None, 0, 12])
    seed = c.choice("seed", [None, 5])
    text = c.choice("doc", [None, "words"])
    meta = c.choice("metadata", [{}, {"a": "b"}])
    opts = c.choice("options", [{}, {"timeout": 100}])
    a, b = dict(STEPS["plain"], name="One", doc="x", randseed=3, version=4, metadata={"z": "z"}, options={"timeout": 1}), dict(STEPS["cell"], name="Two")
    d = chain.jsonNode([a, b], name=n, version=version, randseed=seed, doc=text, metadata=meta, options=opts)
    c.check(d["name"] == ("Mine" if n else "Chain_One_Two"), "name")
    c.check(d.get("version") == version, "version")
    c.check(d.get("randseed") == seed, "randseed")
    c.check(d.get("doc") == text, "doc")
    c.check(d.get("metadata", {}) == meta and d.get("options", {}) == opts, "metadata and options")
    c.check(d["method"] == "map" and d["input"] == "int" and d["output"] == "int", "interface")
    try:
        chain.ast([a, {"input": "int", "output": "int", "method": "fold", "zero": 0, "action": "tally", "merge": {"+": ["tallyOne", "tallyTwo"]}}])
        c.fail("fold accepted")
    except NotImplementedError:
        pass


def jobs(tier):
    out = []
    emits = [k for k in STEPS if STEPS[k].get("method") == "emit"]
    deep = tier == "thorough"
    for k in STEPS:
        d, p, e = STEPS[k], STEPS["plain"], STEPS["emit"]
        chains = {"first": [d, p], "last": [p, d], "twice": [d, d], "alone": [d], "middle": [p, d, p], "after a cell": [STEPS["cell"], d, STEPS["begin and end"]]}
        if k != "counters":
            chains.update({"into emit": [d, e], "from emit": [e, d], "between": [e, d, STEPS["emit in function"]]})
        out.append(chain_job("step " + k, chains, max_paths=3000, n=3 if deep else 2))
    if deep:
        for k in STEPS:
            out.append(chain_job("pairs " + k, dict((j, [STEPS[k], STEPS[j]]) for j in STEPS if not ("counters" in (j, k) and (j in emits or k in emits))), max_paths=6000, limit=120))
    for k, (t, make, keep, take) in LINKS.items():
        # a document declares a named type once; the next step may call it something else
        def pro(t=t, make=make):
            return once(doc(make, "int", t), set())

        def mid(t=t, keep=keep):
            return once({"input": t, "output": t, "action": keep}, set())

        def con(t=t, take=take):
            return once(doc(take, t, "int"), set())
        f = (lambda s: {"P": "Q", "A": "AA", "B": "BB", "En": "Num", "Tree": "Shrub", "Fx": "Fy", "Two": "Deux"}.get(s, s)) if k == "other names" else None
        chains = {"in and out": [pro(), con()], "passed": [pro(), mid(), con()], "passed twice": [pro(), mid(), mid(), con()], "round": [pro(), con(), pro(), con()], "last": [pro()], "from emit": [STEPS["emit"], pro(), con()],
                  "into emit": [pro(), con(), STEPS["emit"]]}
        if f:
            chains["named otherwise"] = [pro(), renamed(con(), f)]
            chains["named otherwise, passed"] = [pro(), renamed(mid(), f), con()]
        if k not in ("union of records", "union of like records", "array of unions", "tree"):
            chains["out last"] = [STEPS["plain"], pro()]
            if k != "fixed":
                chains["passed last"] = [pro(), mid()]
        out.append(chain_job("link " + k, chains, max_paths=3000))
        if k != "bytes" and k != "fixed":
            out.append(chain_job("input " + k, {"first": [con(), STEPS["plain"]], "passed": [mid(), con()], "passed twice": [mid(), mid(), con()], "into emit": [con(), STEPS["emit"]]},
                                 given=lambda c, n, t=t: sample(c, n, t), n=1, max_paths=3000))
    Q1, Q2 = rec("Q", [("x", "int")]), rec("Q", [("y", "int")])
    q = lambda c, n: {"x": c.int(n)}
    out.append(chain_job("one name for several types",
                         {"first and last": [doc("input.x", Q1, "int"), doc({"type": "Q", "new": {"y": "input"}}, "int", Q2)],
                          "first and middle": [doc("input.x", Q1, "int"), doc(plus(IN, {"cell": "c", "path": [["y"]]}), cells={"c": {"type": Q2, "init": {"y": 4}}})],
                          "first, middle and last": [doc("input.x", Q1, "int"), doc(plus(IN, {"cell": "c", "path": [["y"]]}), cells={"c": {"type": Q2, "init": {"y": 4}}}), doc({"type": "Q", "new": {"y": "input"}}, "int", Q2)],
                          "between": [doc("input.x", Q1, "int"), doc({"type": "Q", "new": {"y": "input"}}, "int", Q2), doc("input.y", Q2, "int")],
                          "inside": [doc({"type": "O", "new": {"q": "input"}}, Q1, rec("O", [("q", "Q")])), doc({"type": "Q", "new": {"y": "input.q.x"}}, rec("O", [("q", rec("Z", [("x", "int")]))]), Q2)]}, given=q, n=1))
    out.append(chain_job("version", {"action": [doc(plus(IN, "version")), STEPS["plain"], doc({"*": [mod(IN), "version"]})],
                                     "begin": [doc(IN, begin={"log": ["version"]}, end={"log": ["version"]}), doc(IN, begin={"log": ["version"]})]} if 0 else
                         {"action": [dict(doc(plus(IN, "version")), version=7), STEPS["plain"], dict(doc({"*": [mod(IN), "version"]}), version=7)],
                          "begin": [dict(doc(IN, begin={"log": ["version"]}, end={"log": ["version"]}), version=7), dict(doc(IN, begin={"log": ["version"]}), version=7)]}, version=7))
    out.append(Job("header", header_fn, lambda: True))
    out.append(Job("refused", refusal_fn, lambda: True, max_paths=6000))
    return out


def sample(c, n, t):
    """an input of the type; trees one level deep"""
    if t is TREE:
        return {"v": c.int(n), "l": c.choice(n + "l", [None, {"Tree": {"v": 4, "l": None, "r": None}}]), "r": None}
    return gen(c, n, expand(t), B(arr=2, keys="a"))


def expand(t, names=None):
    names = {} if names is None else names
    if isinstance(t, list):
        return [expand(x, names) for x in t]
    if isinstance(t, dict):
        if t["type"] in ("record", "enum", "fixed"):
            names[t["name"]] = t
        if t["type"] == "record":
            out = dict(t, fields=[dict(f, type=expand(f["type"], names)) for f in t["fields"]])
            names[t["name"]] = out
            return out
        return dict((k, expand(v, names) if k in ("items", "values") else v) for k, v in t.items())
    return names.get(t, t)
