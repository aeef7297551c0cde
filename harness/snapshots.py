"""C32 snapshots resume engines (titus/genpy.py PFAEngine.snapshot, titus/pfaast.py Cell, Pool)."""
import os
import shutil
import tempfile

from harness.lib import *

REC = {"type": "record", "name": "Rec", "fields": [{"name": "n", "type": "int"}, {"name": "u", "type": ["null", "string"]}]}
TREE = {"type": "record", "name": "Tree", "fields": [{"name": "v", "type": "int"}, {"name": "next", "type": ["null", "Tree"]}]}
EN = {"type": "enum", "name": "Color", "symbols": ["red", "green"]}
FX = {"type": "fixed", "name": "Two", "size": 2}
TYPES = {
    "null": ("null", None), "boolean": ("boolean", True), "int": ("int", 5), "long": ("long", 5), "float": ("float", 1.5), "double": ("double", 1.5), "string": ("string", "s"), "bytes": ("bytes", "ab"),
    "array": ({"type": "array", "items": "int"}, [1]), "map": ({"type": "map", "values": "double"}, {"a": 1.5}), "enum": (EN, "green"), "fixed": (FX, "xy"), "record": (REC, {"n": 1, "u": {"string": "q"}}),
    "optional int": (["null", "int"], {"int": 3}), "int or string": (["int", "string"], {"string": "z"}), "int or double": (["int", "double"], {"double": 2.0}), "bytes or string": (["bytes", "string"], {"bytes": "b"}),
    "record or null": ([REC, "null"], {"Rec": {"n": 2, "u": None}}), "array of optional": ({"type": "array", "items": ["null", "int"]}, [None, {"int": 1}]), "map of bytes": ({"type": "map", "values": "bytes"}, {"a": "x"}),
    "array of records": ({"type": "array", "items": REC}, [{"n": 1, "u": None}]), "enum or string": (["string", EN], {"Color": "red"}), "array or map": ([{"type": "array", "items": "int"}, {"type": "map", "values": "int"}], {"map": {"a": 1}}),
    "tree": (TREE, {"v": 1, "next": {"Tree": {"v": 2, "next": None}}}), "array of fixed": ({"type": "array", "items": FX}, ["ab"]),
}
BB = B(arr=1, keys="a", slen=1, alphabet=[(32, 126), (160, 300)])


def value(c, n, name):
    if name == "tree":
        return {"v": c.int(n + ".v"), "next": {"Tree": {"v": c.int(n + ".w"), "next": None}} if c.choice(n + ".deep", [False, True]) else None}
    if name in ("double", "float"):
        return c.real(n)
    if name == "bytes":
        return c.bytes(n, 1) if c.choice(n + ".repr", ["bytes", "text"]) == "bytes" else c.str(n, 1, [(0, 255)])
    return gen(c, n, TYPES[name][0], BB)


def document(name, shared, bare=False):
    t, init = TYPES[name]
    v = {"cast": "input.v", "cases": [{"as": u, "named": "y", "do": ["y"]} for u in t]} if bare else "input.v"
    out = {"type": "record", "name": "Out", "fields": [{"name": "c", "type": t}, {"name": "p", "type": {"type": "array", "items": t}}, {"name": "n", "type": "int"}]}
    doc = {"name": "Snap", "input": {"type": "record", "name": "In", "fields": [{"name": "v", "type": t}, {"name": "key", "type": "string"}, {"name": "fail", "type": "boolean"}, {"name": "remove", "type": "boolean"}]}, "output": out,
           "cells": {"c": {"type": t, "init": init, "shared": shared, "rollback": not shared}, "n": {"type": "int", "init": 10}},
           "pools": {"p": {"type": t, "init": {"k": init}, "shared": shared, "rollback": not shared}, "e": {"type": t}},
           "fcns": {"peek": {"params": [], "ret": {"type": "array", "items": t}, "do": {"new": [{"pool": "p", "path": [["k"]]}], "type": {"type": "array", "items": t}}}},
           "action": [
               {"let": {"was": {"cell": "c"}}},
               {"let": {"had": {"try": {"u.peek": []}}}},
               {"cell": "n", "to": {"+": [{"cell": "n"}, 1]}},
               {"cell": "c", "to": v},
               {"if": "input.remove", "then": {"pool": "p", "del": "input.key"}, "else": [{"pool": "p", "path": ["input.key"], "to": v, "init": v}]},
               {"if": "input.fail", "then": {"error": "stop", "code": -7}},
               {"new": {"c": "was", "p": {"ifnotnull": {"h": "had"}, "then": "h", "else": {"new": [], "type": {"type": "array", "items": t}}}, "n": {"cell": "n"}}, "type": "Out"}]}
    return doc


def state(e):
    """What an engine's cells and pools hold, as JSON by their types."""
    from titus.datatype import jsonEncoder
    out = {}
    for k, x in e.cells.items():
        out["cell " + k] = jsonEncoder(e.config.cells[k].avroType, x.value)
    for k, x in e.pools.items():
        for kk, v in x.value.items():
            out["pool %s %s" % (k, kk)] = jsonEncoder(e.config.pools[k].avroType, v)
    return out


def resume(c, e):
    from titus.genpy import PFAEngine
    snap = e.snapshot()
    how = c.choice("as", ["tree", "document", "document with lines"])
    if how == "tree":
        return PFAEngine.fromAst(snap)[0]
    doc = snap.jsonNode(how != "document", set())
    return PFAEngine.fromJson(doc)[0]


def snap(name, shared, nmax, bare=False):
    def setup():
        return make_engine(once(document(name, shared, bare), set()))

    def fn(c, env):
        from titus.datatype import jsonEncoder
        e = env.fresh()
        n = c.choice("history", list(range(nmax + 1)))
        for i in range(n):
            x = {"v": value(c, "v%d" % i, name), "key": c.choice("key%d" % i, ["k", "l"]), "fail": c.choice("fail%d" % i, [False, True]), "remove": c.choice("remove%d" % i, [False, True])}
            outcome(e.action, x)
        tags = [u if isinstance(u, str) else u.get("name", u["type"]) for u in TYPES[name][0]] if bare else []
        if bare and any(v is not None and not (isinstance(v, dict) and len(v) == 1 and list(v)[0] in tags) for v in [e.cells["c"].value] + list(e.pools["p"].value.values())) and c.known("snapshot-union", True):
            return
        before = copy_tree(state(e))
        f = resume(c, e)
        after = state(e)
        c.check(same_state(c, before, after), "taking a snapshot changes nothing")
        c.check(same_state(c, state(f), before), "the snapshot holds the same values")
        for s in ("cells", "pools"):
            for k, x in getattr(e, s).items():
                y = getattr(f, s)[k]
                c.check((y.shared, y.rollback) == (x.shared, x.rollback), "the snapshot keeps shared and rollback")
        # the same inputs give the same outputs from here on
        outs = []
        x = {"v": value(c, "next", name), "key": "k", "fail": c.choice("failnext", [False, True]), "remove": False}
        for g in (e, f):
            r = [outcome(g.action, copy_tree(x)), outcome(g.action, {"v": TYPES[name][1], "key": "k", "fail": False, "remove": False})]
            outs.append([(k, jsonEncoder(g.outputType, v) if k == "ok" else v) for k, v in r])
        c.check(c.same(outs[0], outs[1]), "the resumed engine gives the same outputs")
        c.check(same_state(c, state(f), state(e)), "the resumed engine reaches the same state")
    return Job("%s%s%s" % (name, " shared" if shared else "", " computed" if bare else ""), fn, setup, limit=150, max_paths=1500, bound="histories of up to %d actions (set, update and removal of pool items, failures), then two more" % nmax)


def same_state(c, a, b):
    return sorted(a) == sorted(b) and c.and_(True, *[c.same(a[k], b[k]) for k in a])


# ---------------------------------------------------------------- the rest of the document
def whole(c):
    """Everything but cells and pools is as in the original document."""
    from titus.genpy import PFAEngine
    from titus.reader import jsonToAst
    doc = {"name": "Whole", "method": "fold", "input": "int", "output": "int", "zero": 3, "merge": {"+": ["tallyOne", "tallyTwo"]}, "begin": [{"log": [1]}], "end": [{"log": ["tally"]}], "action": [{"log": [{"cell": "c"}]}, {"+": ["input", "tally"]}],
           "fcns": {"f": {"params": [{"x": "int"}], "ret": "int", "do": ["x"]}}, "cells": {"c": {"type": "int", "init": 0}}, "pools": {"p": {"type": "int", "init": {"a": 1}}}, "randseed": 12345, "doc": "words", "version": 3, "metadata": {"k": "v"}, "options": {"timeout": 1000000}}
    drop = c.choice("without", [None, "begin", "end", "fcns", "randseed", "doc", "version", "metadata", "options", "pools", "fold"])
    if drop == "fold":
        for k in ("zero", "merge"):
            del doc[k]
        doc.update(method="map", action=[{"log": [{"cell": "c"}]}, "input"], end=[{"log": [0]}])
    elif drop:
        del doc[drop]
    e, = PFAEngine.fromJson(doc)
    x = c.int("x")
    e.cells["c"].value = x
    if drop != "pools":
        e.pools["p"].value["b"] = x
    want = copy_tree(doc)
    want["cells"]["c"]["init"] = x
    if drop != "pools":
        want["pools"]["p"]["init"]["b"] = x
    s = e.snapshot()
    c.check(c.same(s.jsonNode(False, set()), jsonToAst(want).jsonNode(False, set())), "a snapshot is the document with the present state in it")
    c.check(s == jsonToAst(want), "a snapshot is the document with the present state in it (trees)")
    y = c.int("y")
    e.cells["c"].value = y
    c.check(c.same(s.jsonNode(False, set())["cells"]["c"]["init"], x), "a snapshot stays as it was taken")


# ---------------------------------------------------------------- cells and pools read from files
def files(c):
    from titus.genpy import PFAEngine
    from titus.reader import jsonToAst
    what = c.choice("what", ["cell", "pool"])
    d = tempfile.mkdtemp(prefix="sx-c32-")
    try:
        path = os.path.join(d, "init.json")
        with open(path, "w") as f:
            f.write(json.dumps([1, 2] if what == "cell" else {"a": [1, 2]}))
        doc = {"name": "Files", "input": "int", "output": {"type": "array", "items": "int"}, "cells": {}, "pools": {}}
        t = {"type": "array", "items": "int"}
        if what == "cell":
            doc["cells"]["x"] = {"type": t, "init": path, "source": "json"}
            doc["action"] = [{"cell": "x", "to": {"params": [{"old": t}], "ret": t, "do": {"a.append": ["old", "input"]}}}, {"cell": "x"}]
        else:
            doc["pools"]["x"] = {"type": t, "init": path, "source": "json"}
            doc["action"] = [{"pool": "x", "path": [["a"]], "to": {"params": [{"old": t}], "ret": t, "do": {"a.append": ["old", "input"]}}, "init": {"type": t, "value": []}}, {"pool": "x", "path": [["a"]]}]
        e, = PFAEngine.fromJson(doc)
        x, y = c.int("x"), c.int("y")
        c.check(c.same(e.action(x), [1, 2, x]), what + " read from a file")
        s = e.snapshot()
        node = s.jsonNode(False, set())
        f, = PFAEngine.fromJson(node) if c.choice("as", ["document", "tree"]) == "document" else PFAEngine.fromAst(s)
        c.check(c.same(f.action(y), [1, 2, x, y]), what + " from a file: the snapshot holds the present value")
        ast = jsonToAst(doc)
        back = ast.jsonNode(False, set())
        c.check(c.same(back[what + "s"]["x"]["init"], path), what + " from a file: written back as it was read")
        c.check(jsonToAst(back) == ast, what + " from a file: reads into an equal tree")
    finally:
        shutil.rmtree(d)


def jobs(tier):
    deep = tier == "thorough"
    for name in TYPES:
        yield snap(name, False, 2 if deep else 1)
        if deep or name in ("int", "fixed", "record or null"):
            yield snap(name, True, 1)
        if isinstance(TYPES[name][0], list):
            yield snap(name, False, 1, True)
    yield Job("whole document", whole, None)
    yield Job("files", files, None)
