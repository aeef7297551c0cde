"""C22 call graph queries, the call graph of every expression form, refusal of nested state updates."""
from harness.lib import *

FX = ["cell-to", "pool-to", "pool-del"]
INF = float("inf")


def reach(g, f):
    out, todo = set(), list(g.get(f, ()))
    while todo:
        x = todo.pop()
        if x not in out:
            out.add(x)
            todo.extend(g.get(x, ()))
    return out


def depth(g, f):
    if f not in g:
        return 0
    if any([x in reach(g, x) for x in reach(g, f) | {f}]):
        return INF
    return max([0] + [1 + depth(g, x) for x in g[f]])


def queries(n, leaves, limit=300):
    names = ["u." + x for x in "abcd"[:n]]

    def setup():
        return make_engine({"input": "int", "output": "int", "action": "input"})

    def fn(c, env):
        e = env.e
        g = {}
        for f in names:
            g[f] = set([h for h in names if c.choice(f + " calls " + h, [False, True])])
        leaf = c.choice("leaf", leaves)
        if leaf:
            g[names[-1]].add(leaf)
        e.callGraph = dict((k, set(v)) for k, v in g.items())
        f = c.choice("of", names + [leaf or "+"])
        r = reach(g, f)
        c.check(set(e.calledBy(f)) == r, "calledBy: everything reachable, nothing else")
        c.check(e.callDepth(f) == depth(g, f), "callDepth: length of the longest chain of calls")
        c.check(bool(e.isRecursive(f)) == (f in r), "isRecursive: reaches itself")
        c.check(bool(e.hasRecursive(f)) == (depth(g, f) == INF), "hasRecursive: infinite depth")
        c.check(bool(e.hasSideEffects(f)) == any([x in r for x in FX]), "hasSideEffects: reaches an update")
        c.check(e.callGraph == g, "queries leave the call graph alone")
    return Job("queries %d" % n, fn, setup, limit=limit, max_paths=200000, bound="every call graph of %d functions and one leaf" % n)


# ---------------------------------------------------------------- calls found in documents
AI, MI = {"type": "array", "items": "int"}, {"type": "map", "values": "int"}
REC = {"type": "record", "name": "R", "fields": [{"name": "f", "type": "int"}]}
S = {"u.g": ["x"]}                          # an int
BO = {"==": [S, 0]}
STR = {"s.int": [S]}
FN = {"params": [{"y": "int"}], "ret": "int", "do": [{"u.g": ["y"]}]}

SLOTS = {
    "do": {"do": [S, 1]}, "last of do": {"do": [1, S]}, "let": {"let": {"z": S}}, "set": {"do": [{"let": {"z": 0}}, {"set": {"z": S}}, 0]},
    "argument": {"+": [1, S]}, "nested argument": {"+": [1, {"-": [S, 1]}]},
    "attr": {"attr": {"a": S}, "path": [["a"]]}, "attr object": {"attr": {"do": {"new": [S], "type": AI}}, "path": [0]}, "attr path": {"attr": "arr", "path": [S]},
    "attr-to object": {"attr": {"do": {"new": [S], "type": AI}}, "path": [0], "to": 1}, "attr-to path": {"attr": "arr", "path": [S], "to": 1}, "attr-to value": {"attr": "arr", "path": [0], "to": S},
    "attr-to function": {"attr": "arr", "path": [0], "to": FN}, "attr-to reference": {"attr": "arr", "path": [0], "to": {"fcn": "u.g"}}, "attr-to fill": {"attr": "arr", "path": [0], "to": {"fcn": "u.h", "fill": {"b": S}}},
    "cell path": {"cell": "ca", "path": [S]}, "cell-to path": {"cell": "ca", "path": [S], "to": 1}, "cell-to value": {"cell": "c", "to": S}, "cell-to function": {"cell": "c", "to": FN},
    "cell-to reference": {"cell": "c", "to": {"fcn": "u.g"}}, "cell-to fill": {"cell": "c", "to": {"fcn": "u.h", "fill": {"b": S}}},
    "pool path": {"pool": "p", "path": [STR]}, "pool-to path": {"pool": "p", "path": [STR], "to": 1, "init": 0}, "pool-to value": {"pool": "p", "path": [["k"]], "to": S, "init": 0},
    "pool-to init": {"pool": "p", "path": [["k"]], "to": 1, "init": S}, "pool-to function": {"pool": "p", "path": [["k"]], "to": FN, "init": 0},
    "pool-to reference": {"pool": "p", "path": [["k"]], "to": {"fcn": "u.g"}, "init": 0}, "pool-to fill": {"pool": "p", "path": [["k"]], "to": {"fcn": "u.h", "fill": {"b": S}}, "init": 0},
    "pool-del": {"pool": "p", "del": STR}, "if": {"if": BO, "then": 1, "else": 2}, "then": {"if": True, "then": S}, "then of two": {"if": True, "then": S, "else": 2}, "else": {"if": True, "then": 1, "else": S},
    "cond if": {"cond": [{"if": BO, "then": 1}]}, "cond second if": {"cond": [{"if": True, "then": 1}, {"if": BO, "then": 1}], "else": 2}, "cond then": {"cond": [{"if": True, "then": 1}, {"if": True, "then": S}]}, "cond else": {"cond": [{"if": True, "then": 1}], "else": S},
    "while": {"while": BO, "do": 1}, "while body": {"while": False, "do": S}, "do until": {"do": 1, "until": BO}, "until body": {"do": S, "until": True},
    "for init": {"for": {"i": S}, "while": {"<": ["i", 3]}, "step": {"i": 5}, "do": 1}, "for while": {"for": {"i": 0}, "while": BO, "step": {"i": 5}, "do": 1},
    "for step": {"for": {"i": 0}, "while": False, "step": {"i": S}, "do": 1}, "for body": {"for": {"i": 0}, "while": False, "step": {"i": 5}, "do": S},
    "foreach in": {"foreach": "i", "in": {"new": [S], "type": AI}, "do": 1}, "foreach body": {"foreach": "i", "in": "arr", "do": S},
    "forkey in": {"forkey": "k", "forval": "v", "in": {"new": {"a": S}, "type": MI}, "do": 1}, "forkey body": {"forkey": "k", "forval": "v", "in": "map", "do": S},
    "cast": {"cast": {"attr": {"new": {"f": S}, "type": {"type": "record", "name": "R3", "fields": [{"name": "f", "type": ["int", "null"]}]}}, "path": [["f"]]}, "cases": [{"as": "int", "named": "i", "do": 1}, {"as": "null", "named": "i", "do": 2}]},
    "cast body": {"cast": "un", "cases": [{"as": "int", "named": "i", "do": S}, {"as": "null", "named": "i", "do": 2}]}, "cast second body": {"cast": "un", "cases": [{"as": "int", "named": "i", "do": 1}, {"as": "null", "named": "i", "do": S}]},
    "upcast": {"upcast": S, "as": "double"}, "ifnotnull": {"ifnotnull": {"i": {"attr": {"new": [{"do": [S, "un"]}], "type": {"type": "array", "items": ["int", "null"]}}, "path": [0]}}, "then": 1, "else": 2},
    "ifnotnull then": {"ifnotnull": {"i": "un"}, "then": S}, "ifnotnull then of two": {"ifnotnull": {"i": "un"}, "then": S, "else": 1}, "ifnotnull else": {"ifnotnull": {"i": "un"}, "then": 1, "else": S},
    "pack": {"pack": [{"int": S}]}, "unpack": {"unpack": {"pack": [{"int": S}]}, "format": [{"i": "int"}], "then": 1, "else": 2},
    "unpack then": {"unpack": {"pack": [{"int": 1}]}, "format": [{"i": "int"}], "then": S, "else": 2}, "unpack else": {"unpack": {"pack": [{"int": 1}]}, "format": [{"i": "int"}], "then": 1, "else": S},
    "try": {"try": S}, "try in sequence": {"try": [1, S, 2], "filter": ["x"]}, "log": {"log": [1, S]}, "new array": {"new": [1, S], "type": AI}, "new map": {"new": {"a": S}, "type": MI}, "new record": {"new": {"f": S}, "type": {"type": "record", "name": "R2", "fields": [{"name": "f", "type": "int"}]}},
    "call": {"call": "en", "args": [{"u.g": ["x"]}]}, "called": {"call": "en", "args": ["x"]}, "call which": {"call": {"do": [S, "en"]}, "args": ["x"]},
    "function argument": {"a.map": ["arr", FN]}, "reference argument": {"a.map": ["arr", {"fcn": "u.g"}]}, "fill argument": {"a.map": ["arr", {"fcn": "u.h", "fill": {"b": S}}]},
    "library reference": {"a.map": ["arr", {"fcn": "m.exp"}]}, "emit": {"emit": [S]}, "emit reference": {"a.map": ["arr", {"fcn": "emit"}]},
}
SPECIAL = {"do", "let", "set", "attr", "cell", "pool", "if", "cond", "while", "for", "foreach", "forkey", "cast", "upcast", "ifnotnull", "pack", "unpack", "try", "log", "new", "doc", "error", "params", "fcn", "call", "int", "long", "double", "float", "string", "base64", "type", "value"}


def direct(e, out):
    """Functions (and updates) an expression mentions in a position where they may be called."""
    if isinstance(e, list):
        for x in e:
            direct(x, out)
    elif isinstance(e, dict):
        if "type" in e and "value" in e:
            return out
        if "cell" in e and "to" in e:
            out.add("cell-to")
        if "pool" in e and "to" in e:
            out.add("pool-to")
        if "pool" in e and "del" in e:
            out.add("pool-del")
        if "fcn" in e:
            out.add(e["fcn"])
        if "call" in e:
            out |= set("u." + x for x in ("g", "h1"))
        for k, v in e.items():
            if k in ("type", "format", "cells", "pools"):
                continue
            if len(e) == 1 and k not in SPECIAL and isinstance(v, list) and (k in ("emit",) or not k.isalnum()):
                out.add(k)
            if k in ("let", "set", "ifnotnull", "fill", "for", "step") and isinstance(v, dict) and not ("fcn" in e and k != "fill"):
                for x in v.values():
                    direct(x, out)
            elif k == "new" and isinstance(v, dict):
                for x in v.values():
                    direct(x, out)
            elif k == "pack":
                for d in v:
                    for x in d.values():
                        direct(x, out)
            else:
                direct(v, out)
    return out


def doc_of(place, body):
    lets = [{"let": {"arr": {"type": AI, "value": [1]}, "map": {"type": MI, "value": {}}, "un": {"upcast": {"type": "int", "value": 1}, "as": ["int", "null"]}, "en": {"type": {"type": "enum", "name": "En", "symbols": ["g", "h1"]}, "value": "g"}}}]
    g = [{"params": [{"x": "int"}], "ret": "int", "do": "x"}, {"params": [{"x": "int"}], "ret": "int", "do": {"+": ["x", 1]}}, {"params": [{"a": "int"}, {"b": "int"}], "ret": "int", "do": ["a"]}]
    doc = {"input": "int", "output": "int", "method": "emit", "action": 0, "fcns": {"g": g[0], "h1": g[1], "h": g[2]},
           "cells": {"c": {"type": "int", "init": 0}, "ca": {"type": AI, "init": [0]}}, "pools": {"p": {"type": "int", "init": {}}}}
    if place == "u.f":
        doc["fcns"]["f"] = {"params": [{"x": "int"}], "ret": "int", "do": lets + [body, 0]}
    elif place == "(action)":
        doc["action"] = [{"let": {"x": "input"}}] + lets + [body, 0]
    else:
        doc[place[1:-1]] = [{"let": {"x": 0}}] + lets + [body, 0]
    return doc


def slot_job(place, names):
    def fn(c):
        n = c.choice("form", names)
        body = SLOTS[n]
        if n == "attr":
            body = {"attr": {"new": {"f": S}, "type": {"type": "record", "name": "R2", "fields": [{"name": "f", "type": "int"}]}}, "path": [["f"]]}
        doc = copy.deepcopy(doc_of(place, body))
        if n in ("let",):
            doc["fcns"]["g"]["do"] = "x"
        from titus.genpy import PFAEngine
        e, = PFAEngine.fromJson(doc)
        want = direct(body, set())
        got = set([x for x in e.callGraph[place] if x in FX or x == "emit" or "." in x or not x[0].isalpha() and x[0] != "("])
        want = set([x for x in want if x in FX or x == "emit" or "." in x or not x[0].isalpha()])
        c.observe("got", sorted(got))
        c.check(got == want, "calls of %s in %s" % (n, place))
        c.observe("want", sorted(want))
        c.check(e.callGraph["u.g"] == set(), "functions that call nothing have no calls")
        c.check(e.callGraph["u.h1"] >= {"+"}, "functions' own calls are recorded")
    return Job("calls in " + place, fn, None, limit=300, bound="%d expression forms, one call in each of their positions" % len(names))


# ---------------------------------------------------------------- nested updates are refused
UPD = {"none": 0, "cell-to": {"do": [{"cell": "c", "to": 1}, 0]}, "pool-to": {"do": [{"pool": "p", "path": [["k"]], "to": 1, "init": 0}, 0]}, "pool-del": {"do": [{"pool": "p", "del": ["k"]}, 0]},
       "update by function": {"do": [{"cell": "c", "to": {"params": [{"y": "int"}], "ret": "int", "do": 0}}, 0]}}


def via(how, f, arg):
    """An int expression that may call user function f."""
    if how == "call":
        return {"u." + f: [arg]}
    if how == "reference":
        return {"a.sum": [{"a.map": [{"new": [arg], "type": AI}, {"fcn": "u." + f}]}]}
    if how == "fill":
        return {"a.sum": [{"a.map": [{"new": [arg], "type": AI}, {"fcn": "u." + f + "2", "fill": {"b": 0}}]}]}
    if how == "inline":
        return {"a.sum": [{"a.map": [{"new": [arg], "type": AI}, {"params": [{"w": "int"}], "ret": "int", "do": {"u." + f: ["w"]}}]}]}
    if how == "call by name":
        return {"call": {"type": {"type": "enum", "name": "Sel" + f, "symbols": [f]}, "value": f}, "args": [arg]}
    if how == "branch":
        return {"if": False, "then": {"u." + f: [arg]}, "else": 0}
    if how == "update argument":
        return {"do": [{"attr": {"new": [arg], "type": AI}, "path": [0], "to": {"fcn": "u." + f}}, 0]}
    return arg


HOW = ["call", "reference", "fill", "inline", "call by name", "branch", "update argument"]


def fdef(body):
    return {"params": [{"x": "int"}], "ret": "int", "do": body}


def refusal(name, slots, updators, hows1, hows2, direct_effects=False):
    def fn(c):
        from titus.genpy import PFAEngine
        from titus.errors import PFAInitializationException
        effect = c.choice("effect", list(UPD))
        slot = c.choice("slot", slots)
        updator = c.choice("updator", updators)
        h1, h2 = c.choice("how1", hows1), c.choice("how2", hows2)
        one = UPD[effect] if direct_effects and h1 == "itself" else via(h1, "g", "x")
        two = UPD[effect] if h2 == "itself" else via(h2, "h", "x")
        fcns = {"g": fdef([two]), "h": fdef([UPD[effect]]), "u": fdef([one])}
        for f in ("g", "h", "u"):
            fcns[f + "2"] = {"params": [{"x": "int"}, {"b": "int"}], "ret": "int", "do": fcns[f]["do"]}
        to = {"reference": {"fcn": "u.u"}, "fill": {"fcn": "u.u2", "fill": {"b": {"do": [{"cell": "d", "to": 1}, 0]}}}, "inline": fdef([one]),
              "value": {"do": [{"let": {"x": 0}}, one]}}[updator]
        up = {"cell": {"cell": "d", "to": to}, "pool": {"pool": "q", "path": [["k"]], "to": to, "init": 0}, "attr": {"do": {"attr": {"type": AI, "value": [1]}, "path": [0], "to": to}}}[slot]
        doc = once(copy.deepcopy({"input": "int", "output": "null", "action": [up, None], "fcns": fcns, "cells": {"c": {"type": "int", "init": 0}, "d": {"type": "int", "init": 0}}, "pools": {"p": {"type": "int", "init": {}}, "q": {"type": "int", "init": {}}}}), set())
        reaches = effect != "none" and h1 != "nothing" and (h1 == "itself" or h2 != "nothing")
        bad = reaches and updator != "value" and slot != "attr"
        try:
            PFAEngine.fromJson(doc)
            refused = False
        except PFAInitializationException:
            refused = True
        c.observe("refused", refused)
        c.check(refused == bad, "documents that could update state inside an update are refused" if bad else "documents that could not update state inside an update are accepted")
    return Job(name, fn, None, limit=600, max_paths=5000, bound="chains of two calls through every way of calling")


def jobs(tier):
    deep = tier == "thorough"
    yield queries(3, [None, "cell-to", "pool-to", "pool-del", "+"])
    if deep:
        yield queries(4, [None, "pool-to"], limit=850)
    names = [k for k in SLOTS]
    for place in ("u.f", "(action)", "(begin)", "(end)"):
        yield slot_job(place, names if deep or place == "u.f" else [n for i, n in enumerate(names) if i % 3 == ["(action)", "(begin)", "(end)"].index(place)])
    for h in HOW:
        yield refusal("updates inside an update: then by " + h, ["cell", "pool"], ["reference", "inline"] if not deep else ["reference", "fill", "inline", "value"], HOW if deep else ["call", "reference", "call by name"], [h])
    yield refusal("updates inside an update: at once", ["cell", "pool", "attr"], ["reference", "fill", "inline", "value"], ["itself", "nothing"], ["nothing"], True)
    yield refusal("updates inside an update: after one call", ["cell", "pool", "attr"] if deep else ["cell"], ["fill", "inline", "value"], HOW, ["itself"])
