"""C23 documents, syntax trees and back (titus/reader.py, titus/pfaast.py)."""
from harness.lang import *

KEYED = ("let", "set", "for", "step", "ifnotnull", "fill")
BLOCKS = ("do", "then", "else", "log", "try")
FORMS = {"int", "long", "float", "double", "string", "base64", "type", "value", "let", "set", "for", "step", "ifnotnull", "do", "then", "else", "log", "path", "args", "try", "attr", "if", "while", "until",
         "unpack", "del", "cond", "cases", "foreach", "forkey", "forval", "fcn", "cell", "pool", "in", "cast", "upcast", "init", "call", "seq", "partial", "doc", "error", "code", "namespace", "new", "params",
         "ret", "as", "to", "fill", "filter", "format", "pack"}


def canon(e):
    """What an expression means, as a structure that is equal exactly when the expressions are the same."""
    if e is None or isinstance(e, bool):
        return ["literal", e]
    if isinstance(e, int):
        return ["int", e] if -2147483648 <= e <= 2147483647 else ["long", e]
    if isinstance(e, float):
        return ["double", e]
    if isinstance(e, str):
        if "." in e:
            h, t = e.split(".", 1)
            return ["form", [["attr", ["ref", h]], ["path", [["int", int(x)] if x.isdigit() else ["string", x] for x in t.split(".")]]]]
        return ["ref", e]
    if isinstance(e, (list, tuple)):
        return ["string", e[0]]
    e = dict((k, v) for k, v in e.items() if k != "@")
    if len(e) == 1:
        (k, v), = e.items()
        if k in ("int", "long"):
            return [k, v]
        if k in ("float", "double"):
            return [k, v + 0.0]
        if k in ("string", "base64"):
            return [k, v]
        if k not in FORMS:
            return ["call", k, [canon(x) for x in (v if isinstance(v, (list, tuple)) else [v])]]
    if "type" in e and "value" in e:
        return ["value", e["type"], e["value"]]
    if e.get("path") == [] and "cell" in e:
        del e["path"]
    if "foreach" in e:
        e.setdefault("seq", True)
    if "cast" in e:
        e.setdefault("partial", False)
    out = []
    for k in sorted(e):
        v = e[k]
        if k in KEYED or (k == "new" and isinstance(v, dict)):
            v = [[n, canon(v[n])] for n in sorted(v) if n != "@"]
        elif k in BLOCKS:
            v = [canon(x) for x in (v if isinstance(v, (list, tuple)) else [v])]
        elif k in ("path", "args", "cond", "new"):
            v = [canon(x) for x in v]
        elif k == "pack":
            v = [[n, canon(x[n])] for x in v for n in x if n != "@"]
        elif k == "format":
            v = [[n, x[n]] for x in v for n in x if n != "@"]
        elif k == "cases":
            v = [[x["as"], x["named"], [canon(y) for y in (x["do"] if isinstance(x["do"], (list, tuple)) else [x["do"]])]] for x in v]
        elif k == "params":
            v = [[n, x[n]] for x in v for n in x if n != "@"]
        elif k in ("type", "as", "ret", "foreach", "forkey", "forval", "fcn", "cell", "pool", "seq", "partial", "doc", "error", "code", "namespace", "filter"):
            pass
        else:
            v = canon(v)
        out.append([k, v])
    return ["form", out]


AI, MI = {"type": "array", "items": "int"}, {"type": "map", "values": "int"}
RT = {"type": "record", "name": "R", "fields": [{"name": "f", "type": ["int", "null"], "default": 3}]}
TYPES = ["int", AI, ["null", "string"], RT, {"type": "enum", "name": "E", "symbols": ["a", "b"]}, {"type": "fixed", "name": "F", "size": 3}, {"type": "fixed", "name": "F", "size": 4}]


class G(object):
    """Pieces of documents: integers, doubles and strings are symbolic, the rest is chosen."""

    def __init__(self, c, p, other=None, at=None):
        self.slen, self.wide = 2, True
        self.real, self.p, self.k, self.other, self.at = c, p, 0, other, at
        self.c, self.memo = self, other.memo if other else {}

    def n(self):
        self.k += 1
        return "%s%d" % ("b" if self.k == self.at else self.p, self.k)

    def keep(self, key, f):
        """The same piece again where the other document has it."""
        if key not in self.memo:
            self.memo[key] = f(key)
        return self.memo[key]

    def choice(self, n, xs):
        return xs[self.keep("%s of %d" % (n, len(xs)), lambda k: self.real.choice(k, list(range(len(xs)))))]

    def int(self, n, lo=None, hi=None):
        return self.keep("%s int %s" % (n, lo), lambda k: self.real.int(k, lo, hi) if lo is not None else self.real.int(k))

    def long(self, n):
        return self.keep(n + " long", self.real.long)

    def real_(self, n, lo, hi):
        return self.keep(n + " real", lambda k: self.real.real(k, lo, hi))

    def str(self, n, m, a):
        return self.keep(n + " str", lambda k: self.real.str(k, m, a, minlen=m - 1))

    def i(self):
        return self.c.long(self.n())

    def d(self):
        return self.real_(self.n(), -1000, 1000)

    def s(self):
        return self.c.str(self.n(), self.slen, [(32, 45), (48, 57), (97, 122)])

    def name(self):
        return self.c.choice(self.n(), ["x", "y"])

    def type(self):
        return copy.deepcopy(self.c.choice(self.n(), TYPES))

    def small(self):
        return self.c.int(self.n(), -3000000000, 3000000000) if self.wide else self.c.int(self.n(), -1000, 1000)

    def e(self):
        """a small expression"""
        k = self.c.choice(self.n(), ["int", "ref"])
        return self.small() if k == "int" else "x"

    def es(self):
        if not self.wide:
            return self.small() if self.k > 1 or self.c.choice(self.n(), [True, False]) else ["x"]
        k = self.c.choice(self.n(), ["one", "list of one", "two"])
        return self.e() if k == "one" else [self.small()] if k == "list of one" else [self.small(), "x"]

    def opt(self, d, key, f):
        if self.c.choice(self.n(), [False, True]):
            d[key] = f()
        return d

    def fn(self):
        return {"params": [{self.name(): "int"}], "ret": "int", "do": self.es()}

    def arg(self):
        k = self.c.choice(self.n(), ["e", "fn", "fcn", "fill"])
        return self.small() if k == "e" else {"params": [{"x": "int"}, {self.name() + "2": "int"}], "ret": "int", "do": ["x"]} if k == "fn" else {"fcn": "u." + self.name()} if k == "fcn" else {"fcn": "u.f", "fill": {self.name(): self.small()}}


EXPRS = {
    "int": lambda g: {"int": g.c.int(g.n())}, "number": lambda g: g.i(), "long": lambda g: {"long": g.i()}, "float": lambda g: {"float": g.d()}, "double": lambda g: {"double": g.d()}, "decimal": lambda g: g.d(),
    "float of int": lambda g: {"float": g.c.int(g.n())}, "double of int": lambda g: {"double": g.c.int(g.n())},
    "string": lambda g: {"string": g.s()}, "quoted": lambda g: [g.s()], "null": lambda g: None, "boolean": lambda g: g.c.choice(g.n(), [True, False]),
    "base64": lambda g: {"base64": g.c.choice(g.n(), ["", "AA==", "AP8=", "AP8B", "aGVsbG8="])},
    "literal": lambda g: g.c.choice(g.n(), [{"type": AI, "value": [1, 2]}, {"type": AI, "value": [1]}, {"type": MI, "value": {"a": 1}}, {"type": "double", "value": 2.5}, {"type": RT, "value": {"f": {"int": 3}}}, {"type": RT, "value": {"f": None}}, {"type": "string", "value": "x"}]),
    "ref": lambda g: g.name(), "dots": lambda g: g.c.choice(g.n(), ["x.y", "x.1", "x.y.2.z", "y.y"]),
    "call": lambda g: {g.c.choice(g.n(), ["+", "-", "u.f", "a.map"]): g.c.choice(g.n(), [[g.small(), "x"], ["x", g.small()], [g.small()], []])}, "call with functions": lambda g: {"a.map": [g.e(), g.arg()]}, "call unary": lambda g: {"m.abs": g.small()},
    "call by name": lambda g: {"call": g.name(), "args": [g.small(), g.e()]},
    "new object": lambda g: {"new": {g.name(): g.small(), "z": g.e()}, "type": g.type()}, "new array": lambda g: {"new": g.c.choice(g.n(), [[], [g.small()], [g.small(), "x"]]), "type": g.type()},
    "do": lambda g: {"do": g.es()}, "let": lambda g: {"let": {g.name(): g.small(), "z": g.e()}}, "set": lambda g: {"set": {g.name(): g.small()}},
    "attr": lambda g: {"attr": g.name(), "path": [g.e(), [g.s()]]}, "attr-to": lambda g: {"attr": g.name(), "path": [g.e()], "to": g.arg()},
    "cell": lambda g: g.opt({"cell": g.name()}, "path", lambda: g.c.choice(g.n(), [[], [g.small()], [g.small(), "x"]])), "cell-to": lambda g: g.opt({"cell": g.name(), "to": g.arg()}, "path", lambda: [g.small()]),
    "pool": lambda g: {"pool": g.name(), "path": [[g.s()], g.e()]}, "pool-to": lambda g: {"pool": g.name(), "path": [g.e()], "to": g.arg(), "init": g.small()}, "pool-del": lambda g: {"pool": g.name(), "del": g.e()},
    "if": lambda g: g.opt({"if": g.name(), "then": g.es()}, "else", g.es), "cond": lambda g: g.opt({"cond": [{"if": g.name(), "then": g.small()}] + g.c.choice(g.n(), [[], [{"if": "x", "then": [g.small()]}]])}, "else", g.es),
    "while": lambda g: {"while": g.name(), "do": g.es()}, "until": lambda g: {"do": g.es(), "until": g.name()},
    "for": lambda g: {"for": {g.name(): g.small()}, "while": g.name(), "step": {g.name(): g.small()}, "do": g.e()},
    "foreach": lambda g: g.opt({"foreach": g.name(), "in": g.name(), "do": g.es()}, "seq", lambda: g.c.choice(g.n(), [True, False])), "forkey": lambda g: {"forkey": g.name(), "forval": g.name(), "in": g.e(), "do": g.es()},
    "cast": lambda g: g.opt({"cast": g.name(), "cases": [{"as": "int", "named": g.name(), "do": g.es()}, {"as": g.c.choice(g.n(), ["null", "string"]), "named": "x", "do": ["x"]}]}, "partial", lambda: g.c.choice(g.n(), [True, False])),
    "cast types": lambda g: {"cast": "x", "cases": [{"as": g.type(), "named": "x", "do": 1}]}, "upcast": lambda g: {"upcast": g.e(), "as": g.type()},
    "ifnotnull": lambda g: g.opt({"ifnotnull": g.c.choice(g.n(), [{"x": "y"}, {"y": "x"}, {"x": "y", "z": "y"}]), "then": g.es()}, "else", g.es),
    "pack": lambda g: {"pack": g.c.choice(g.n(), [[{"int": g.small()}], [{"int": g.small()}, {"byte": "x"}], [{"pad": g.small()}]])},
    "unpack": lambda g: g.opt({"unpack": g.name(), "format": g.c.choice(g.n(), [[{"i": "int"}], [{"i": "int"}, {"j": "raw 3"}], [{"j": "int"}]][:3 if g.wide else 1]), "then": g.es()}, "else", g.es),
    "doc": lambda g: {"doc": g.s()}, "error": lambda g: g.opt({"error": g.s()}, "code", lambda: g.c.int(g.n(), -1000, -1)), "log": lambda g: g.opt({"log": g.es()}, "namespace", g.s),
    "try": lambda g: g.opt({"try": g.es()}, "filter", lambda: g.c.choice(g.n(), [[], [g.s()], [g.c.int(g.n()), g.s()]][0 if g.wide else 1:])),
    "function": lambda g: {"params": g.c.choice(g.n(), [[], [{"x": "int"}], [{"x": "int"}, {"y": RT}], [{"y": RT}, {"x": "int"}]]), "ret": g.type(), "do": g.es()},
    "function reference": lambda g: {"fcn": "u." + g.name()}, "fill": lambda g: {"fcn": "u.f", "fill": g.c.choice(g.n(), [{"x": g.small()}, {"x": g.small(), "y": {"fcn": "u.g"}}])},
}


def same(c, a, b):
    """Equality of canonical structures: same shape, same kinds of leaves, equal leaves."""
    if isinstance(a, (list, tuple)) or isinstance(b, (list, tuple)):
        return isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)) and len(a) == len(b) and c.and_(True, *[same(c, x, y) for x, y in zip(a, b)])
    if isinstance(a, dict) or isinstance(b, dict):
        return isinstance(a, dict) and isinstance(b, dict) and set(a) == set(b) and c.and_(True, *[same(c, a[k], b[k]) for k in a])
    if a is None or b is None:
        return a is None and b is None
    if isinstance(a, bool) or isinstance(b, bool):
        return isinstance(a, bool) and isinstance(b, bool) and c.eq(a, b)
    if isinstance(a, str) != isinstance(b, str):
        return False
    if isinstance(a, float) != isinstance(b, float):
        return False
    return c.eq(a, b)


def read(j, kind):
    from titus.reader import jsonToAst
    return jsonToAst.exprs([j])[0] if isinstance(j, str) else jsonToAst.fcn(j) if kind == "function" else jsonToAst.expr({"f": [j]}) if kind in ("function reference", "fill") else jsonToAst.expr(j)


def trip(kind):
    def fn(c):
        j = once(EXPRS[kind](G(c, "a")), set())
        before = copy_tree(j)
        ast = read(j, kind)
        wrap = (lambda x: {"f": [x]}) if kind in ("function reference", "fill") else (lambda x: x)
        lines = c.choice("line numbers", [False, True])
        out = ast.jsonNode(lines, set())
        c.check(alike(c, canon, out, wrap(before)), kind + ": written back as it was read")
        back = read(out if kind not in ("function reference", "fill") else out["f"][0], kind)
        c.check(ast == back, kind + ": reads into an equal tree")
        c.check(c.same(j, before), kind + ": reading leaves the document alone")
    return Job("trip " + kind, fn, None, limit=120, bound="integers, doubles and strings (length <= 2) symbolic")


def pairs(kind, kinds, wide):
    """Trees are equal exactly when the documents say the same: a document and one that differs in one piece."""
    def fn(c):
        g = G(c, "a")
        g.slen, g.wide = 1, wide
        j = EXPRS[kind](g)
        other = c.choice("other", kinds)
        h = EXPRS[other](G(c, "b") if other != kind else G(c, "a", g, c.choice("differs at", list(range(1, g.k + 1)) or [1])))
        j, h = once(copy_tree(j), set()), once(copy_tree(h), set())
        if (kind in ("function reference", "fill", "function")) != (other in ("function reference", "fill", "function")):
            return
        a, b = read(j, kind), read(h, other)
        if kind == "function" or other == "function":
            if kind != other:
                return
        elif kind in ("function reference", "fill"):
            j, h = {"f": [j]}, {"f": [h]}
        c.check(c.eq(bool(a == b), alike(c, canon, j, h)), "%s and %s: trees equal exactly when the documents are" % (kind, other))
    return Job("pairs " + kind, fn, None, limit=200, max_paths=40000, bound="two documents of the same form, or of two forms")


# ---------------------------------------------------------------- whole documents
def engine_doc(g):
    c = g
    d = {"input": "int", "output": "null", "action": None}
    part = c.choice("section", ["name", "method", "begin", "end", "fcns", "fold", "cells", "pools", "cell source", "randseed", "doc", "version", "metadata", "options", "types", "action", "input"])
    if part == "input":
        d["input"] = g.type()
    if part == "action":
        d["action"] = c.choice("action", [[None], [1, None], {"do": [None]}])
    if part == "name":
        d["name"] = c.choice("name", ["A", "B_1"])
    elif part == "method":
        d["method"] = c.choice("m", ["map", "emit"])
    elif part in ("begin", "end"):
        d[part] = g.es()
    elif part == "fcns":
        d["fcns"] = c.choice("f", [{}, {"f": g.fn()}, {"f": {"params": [], "ret": "int", "do": 1}, "g": g.fn()}])
    elif part == "fold":
        d["method"], d["zero"], d["merge"] = "fold", c.choice("z", [None, 1, [1], {"a": [1.5]}]), g.es()
    elif part in ("cells", "pools"):
        init = c.choice("init", [{}, {"a": 1}]) if part == "pools" else c.choice("init", [1, None, [1], {"a": 1}])
        d[part] = {g.name(): {"type": g.type(), "init": init, "shared": c.choice("shared", [False, True]), "rollback": False}}
        if not d[part][list(d[part])[0]]["shared"]:
            d[part][list(d[part])[0]]["rollback"] = c.choice("rollback", [False, True])
        if c.choice("bare", [False, True]):
            d[part]["w"] = {"type": "int", "init": {} if part == "pools" else 0}
    elif part == "cell source":
        d["cells"] = {"x": {"type": "int", "init": 0, "source": "embedded"}}
    elif part == "randseed":
        d["randseed"] = g.i()
    elif part == "doc":
        d["doc"] = g.s()
    elif part == "version":
        d["version"] = c.int(g.n(), 0, 1000)
    elif part == "metadata":
        d["metadata"] = c.choice("md", [{}, {"k": "v"}, {"k": "w"}, {"l": "v"}])
    elif part == "options":
        d["options"] = c.choice("op", [{}, {"timeout": 100}, {"timeout": 200}, {"x": [1, None]}])
    elif part == "types":
        d["cells"] = {"x": {"type": copy.deepcopy(RT) if d["input"] != RT else "R", "init": None}, "y": {"type": {"type": "array", "items": "R"}, "init": []}}
        d["fcns"] = {"f": {"params": [{"x": "R"}], "ret": {"type": "map", "values": "R"}, "do": {"new": {}, "type": {"type": "map", "values": "R"}}}}
    return d


def canon_doc(d):
    fill = {"method": "map", "begin": [], "end": [], "fcns": {}, "zero": None, "merge": None, "cells": {}, "pools": {}, "randseed": None, "doc": None, "version": None, "metadata": {}, "options": {}}
    d = dict(fill, **dict((k, v) for k, v in d.items() if k != "@"))
    out = []
    for k in sorted(d):
        v = d[k]
        if k in ("begin", "end", "action") or (k == "merge" and v is not None):
            v = [canon(x) for x in (v if isinstance(v, (list, tuple)) else [v])]
        elif k == "fcns":
            v = [[n, canon(v[n])] for n in sorted(v) if n != "@"]
        elif k in ("cells", "pools"):
            v = [[n, dict({"shared": False, "rollback": False, "source": "embedded"}, **dict((a, b) for a, b in v[n].items() if a != "@"))] for n in sorted(v) if n != "@"]
        out.append([k, v])
    return out


def expand(x, seen):
    """Types with names replaced by their first definition (documents may define a name at any of its uses)."""
    if isinstance(x, dict):
        if x.get("type") in ("record", "enum", "fixed") and "name" in x:
            return {"named": x["name"]}
        return dict((k, expand(v, seen)) for k, v in x.items())
    if isinstance(x, (list, tuple)):
        return [expand(v, seen) for v in x]
    if isinstance(x, str) and x in seen:
        return {"named": x}
    return x


def definitions(x, out):
    if isinstance(x, dict):
        if x.get("type") in ("record", "enum", "fixed") and "name" in x:
            out[x["name"]] = x
        for v in x.values():
            definitions(v, out)
    elif isinstance(x, (list, tuple)):
        for v in x:
            definitions(v, out)
    return out


def alike(c, canonical, a, b):
    da, db = definitions(a, {}), definitions(b, {})
    if set(da) != set(db):
        return False
    return c.and_(same(c, canonical(expand(a, set(da))), canonical(expand(b, set(db)))), *[same(c, da[k], db[k]) for k in da])


def documents(c):
    from titus.reader import jsonToAst
    g = G(c, "a")
    g.slen = 1
    d = engine_doc(g)
    d.setdefault("name", "Given")
    d = once(d, set())
    before = copy_tree(d)
    ast = jsonToAst(d)
    lines = c.choice("line numbers", [False, True])
    out = ast.jsonNode(lines, set())
    c.check(alike(c, canon_doc, out, before), "document: written back as it was read")
    back = jsonToAst(out)
    c.check(ast == back, "document: reads into an equal tree")
    c.check(c.same(d, before), "document: reading leaves it alone")


def document_pairs(c):
    from titus.reader import jsonToAst
    g = G(c, "a")
    g.slen = 1
    d = engine_doc(g)
    h = copy_tree(d)
    what = c.choice("change", ["name", "input", "output", "method", "action", "begin", "end", "fcns", "cells", "pools", "randseed", "doc", "version", "metadata", "options", "zero", "nothing"])
    new = {"name": "Other", "input": "bytes", "output": "bytes", "method": "emit" if d.get("method") != "emit" else "map", "action": [5, None], "begin": [77], "end": [78], "fcns": {"new": {"params": [], "ret": "int", "do": 1}},
           "cells": {"new": {"type": "int", "init": 5}}, "pools": {"new": {"type": "int", "init": {}}}, "randseed": 123456, "doc": "something longer", "version": 2, "metadata": {"new": "x"}, "options": {"new": 1}, "zero": 99}
    for x in (d, h):
        x.setdefault("name", "Given")
    if what == "cells" and "fcns" in d and "cells" in d or what == "method" and d.get("method") == "fold" or what == "zero" and d.get("method") != "fold":
        return
    if what != "nothing":
        h[what] = new[what]
    a, b = jsonToAst(once(d, set())), jsonToAst(once(h, set()))
    c.check(c.eq(bool(a == b), alike(c, canon_doc, d, h)), "documents differing in %s are different trees" % what)


def jobs(tier):
    deep = tier == "thorough"
    yield Job("document pairs", document_pairs, None, limit=300, max_paths=60000, bound="documents that differ in one section")
    slow = ["unpack", "try", "ifnotnull", "cond"]
    for k in slow + [x for x in EXPRS if x not in slow]:
        yield pairs(k, [k] if not deep else [k] + [x for x in EXPRS if x != k], deep)
    yield Job("documents", documents, None, limit=300, bound="one optional section at a time")
    for k in EXPRS:
        yield trip(k)

    def rewritten(doc):
        from titus.reader import jsonToAst
        return json.loads(jsonToAst(doc).toJson())
    S1, S2, V1, V2, V3 = statements(1), statements(2), valued(1), valued(2), valued(3)
    for o in S1:
        docs = dict((i, program(S1[o](S2[i](CORE)))) for i in (S2 if deep else ["cond", "for", "cast", "unpackelse", "ifnotnullelse"]))
        docs["try"] = program(S1[o](tried(3, ["E", -9])))
        yield compare_programs("rewritten " + o, docs, nmax=2 if deep else 1, limit=300, rewrite=rewritten)
    for o in V1:
        yield compare_programs("rewritten value " + o, dict((i, value_program(V1[o](V2[i](LEAF1, LEAF2), V3["do"]("input.n3", LEAF1)))) for i in (V2 if deep else ["fold", "fill", "call", "castall"])), nmax=1, limit=300, rewrite=rewritten)
    yield compare_programs("rewritten more", MORE, nmax=2, limit=300, rewrite=rewritten)
