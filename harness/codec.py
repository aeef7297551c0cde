"""Decoding, encoding and input checking (titus/datatype.py jsonDecoder, jsonEncoder, checkData)."""
from harness.lib import *
from harness.typeacc import kind, full, tagof, parse, textual

A = lambda t: {"type": "array", "items": t}
M = lambda t: {"type": "map", "values": t}
FX = {"type": "fixed", "name": "Fx", "size": 2}
EN = {"type": "enum", "name": "En", "symbols": ["red", "green"]}
NS = {"type": "enum", "name": "En", "namespace": "com.ex", "symbols": ["x", "y"]}
R = {"type": "record", "name": "R", "fields": [{"name": "a", "type": "int"}, {"name": "b", "type": "string"}]}
RD = {"type": "record", "name": "R", "fields": [{"name": "a", "type": "int", "default": 5}, {"name": "b", "type": ["null", "string"], "default": None}, {"name": "c", "type": "null"}]}
RU = {"type": "record", "name": "R", "namespace": "p", "fields": [{"name": "k", "type": ["string", "int"], "default": "dflt"}, {"name": "v", "type": A("double")}]}
TREE = {"type": "record", "name": "T", "fields": [{"name": "v", "type": "int"}, {"name": "l", "type": ["T", "null"]}]}

SCHEMAS = {
    "null": "null", "boolean": "boolean", "int": "int", "long": "long", "float": "float", "double": "double", "string": "string", "bytes": "bytes",
    "fixed": FX, "enum": EN, "enum-ns": NS, "array-int": A("int"), "array-union": A(["null", "int", "string"]), "map-long": M("long"), "map-array": M(A("double")),
    "record": R, "record-ns": RU, "union": ["null", "int", "string", "boolean"], "union-named": [FX, EN, R, "null"], "union-ns": [NS, RU],
    "union-containers": [A("int"), M("double"), "double"], "array-array": A(A("string")), "tree": TREE,
}


def jgen(c, n, d, prims, keys, inner=None):
    """an arbitrary JSON-like value: primitives from `prims`, arrays and objects nested d deep"""
    k = c.choice(n, list(prims) + (["list", "dict"] if d else []))
    if k == "null":
        return None
    if k == "bool":
        return c.bool(n + ".b")
    if k == "int":
        return c.int(n + ".i", -(1 << 65), 1 << 65)
    if k == "real":
        if d or "." in n:
            return c.real(n + ".r", -1e12, 1e12)
        return c.choice(n + ".k", [-2147483648.0, -2147483649.0, 2147483647.0, 2147483648.0, 9223372036854775808.0, -9223372036854775808.0, 1e300, float("inf"), float("-inf"), float("nan")]) \
            if c.choice(n + ".edge", [False, True]) else c.real(n + ".r", -1e12, 1e12)
    if k == "str":
        return c.str(n + ".s", 2) if "." not in n else c.str(n + ".s", 2, [(0, 127)])
    if k == "sym":
        return c.choice(n + ".e", ["red", "x", "null", "true", "3", ""])
    if k == "bytes":
        return c.bytes(n + ".y", 2)
    if k == "list":
        m = c.choice(n + ".len", [0, 1, 2] if d == 1 and "." not in n else [0, 1])
        return [jgen(c, "%s.%d" % (n, i), d - 1, prims, inner if inner is not None else keys) for i in range(m)]
    out = {}
    for key in c.choice(n + ".keys", keys):
        out[key] = jgen(c, n + "." + key, d - 1, prims, inner if inner is not None else keys)
    return out


class Refuse(Exception):
    pass


def defs(t, out):
    if isinstance(t, list):
        for x in t:
            defs(x, out)
    elif isinstance(t, dict):
        if "name" in t:
            out[full(t)] = t
        for x in ("items", "values"):
            if x in t:
                defs(t[x], out)
        for f in t.get("fields", []):
            defs(f["type"], out)
    return out


def decode(c, t, j, names, frac):
    """Reference: the value of type t that JSON j renders; Refuse otherwise."""
    if isinstance(t, str) and t in names:
        t = names[t]
    k = kind(t)
    if k == "union":
        if j is None:
            if "null" in t:
                return None
            raise Refuse()
        if isinstance(j, dict) and len(j) == 1:
            (tag, v), = j.items()
            for x in t:
                if tag == (tagof(x) if not (isinstance(x, str) and x in names) else x):
                    if x == "null":
                        if v is not None:
                            raise Refuse()
                        return ("either", {"null": None}, None)
                    return {tag: decode(c, x, v, names, frac)}
        raise Refuse()
    if k == "null":
        ok = j is None
    elif k == "boolean":
        ok = isinstance(j, bool)
    elif k in ("int", "long"):
        lo, hi = (INT_MIN, INT_MAX) if k == "int" else (LONG_MIN, LONG_MAX)
        if isinstance(j, float) and j == j and c.and_(j >= lo - 1, j <= hi + 1) and j != math.floor(j):
            if frac():
                return ("skip",)
            raise Refuse()
        if isinstance(j, (int, float)) and not isinstance(j, bool) and j == j and c.and_(j >= lo, j <= hi):
            return math.floor(j) if isinstance(j, float) else j
        ok = False
    elif k in ("float", "double"):
        ok = isinstance(j, (int, float)) and not isinstance(j, bool)
    elif k == "string":
        ok = isinstance(j, str)
    elif k == "bytes":
        ok = isinstance(j, str) and latin(c, j)
    elif k == "fixed":
        ok = isinstance(j, str) and len(j) == t["size"] and latin(c, j)
    elif k == "enum":
        ok = isinstance(j, str) and c.or_(False, *[j == s for s in t["symbols"]])
    elif k == "array":
        if not isinstance(j, list):
            raise Refuse()
        return [decode(c, t["items"], x, names, frac) for x in j]
    elif k == "map":
        if not isinstance(j, dict):
            raise Refuse()
        return dict((n, decode(c, t["values"], x, names, frac)) for n, x in j.items())
    elif k == "record":
        if not isinstance(j, dict):
            raise Refuse()
        out = {}
        for f in t["fields"]:
            if f["name"] in j:
                out[f["name"]] = decode(c, f["type"], j[f["name"]], names, frac)
            elif "default" in f:
                d = f["default"]
                if isinstance(f["type"], list) and d is not None:
                    d = {tagof(f["type"][0]): d}
                out[f["name"]] = d
            elif f["type"] == "null":
                out[f["name"]] = None
            else:
                raise Refuse()
        return out
    else:
        raise ValueError(t)
    if not ok:
        raise Refuse()
    return j


def latin(c, s):
    return c.and_(True, *[ord(ch) < 256 for ch in s])


import math


def hasmark(v, mark):
    if isinstance(v, tuple):
        return len(v) > 0 and v[0] == mark
    if isinstance(v, dict):
        return any([hasmark(x, mark) for x in v.values()])
    if isinstance(v, list):
        return any([hasmark(x, mark) for x in v])
    return False


def strip(v):
    """drop the tag of a null in a union ({"null": None} and None are the same value)"""
    if isinstance(v, tuple):
        return None
    if isinstance(v, dict):
        if len(v) == 1 and "null" in v and v["null"] is None:
            return None
        return dict((k, strip(x)) for k, x in v.items())
    if isinstance(v, list):
        return [strip(x) for x in v]
    return v


def nonlatin(c, t, j, names):
    """a string beyond Latin-1 meets bytes or fixed somewhere"""
    return False


def dec(name, schema, d, prims, keys, inner=None, **kw):
    names = defs(schema, {})

    def setup():
        return parse(schema)

    def fn(c, t):
        from titus.datatype import jsonDecoder
        from titus.errors import AvroException
        j = jgen(c, "j", d, prims, keys, inner)
        before = copy_tree(j)
        try:
            want = ("ok", decode(c, schema, before, names, lambda: c.known("decode-fraction", True)))
        except Refuse:
            want = ("refused", None)
        if want[0] == "ok" and hasmark(want[1], "skip"):
            return
        try:
            got = ("ok", jsonDecoder(t, j))
        except AvroException:
            got = ("refused", None)
        c.observe("kind", got[0])
        c.check(got[0] == want[0], name + ": accepted exactly when the JSON renders a value of the schema")
        if got[0] == "ok":
            c.check(c.same(strip(got[1]), strip(want[1])), name + ": the value rendered")
        c.check(c.same(j, before), name + ": JSON unmodified")
    return Job("decode." + name, fn, setup, **kw)


def roundtrip(name, schema, b, **kw):
    """encode then decode is the identity, and the encoding is a JSON rendering of the schema"""
    names = defs(schema, {})

    def setup():
        return parse(schema)

    def fn(c, t):
        from titus.datatype import jsonDecoder, jsonEncoder, checkData
        v = rgen(c, "v", schema, names, b, 2)
        before = copy_tree(v)
        j = jsonEncoder(t, v)
        c.check(c.same(strip(decode(c, schema, j, names, lambda: False)), strip(textual(before))), name + ": the encoding renders the value")
        d = jsonDecoder(t, j)
        c.check(c.same(strip(d), strip(textual(before))), name + ": decoding the encoding gives the value back")
        k = checkData(d, t)
        c.check(c.same(textual(strip(k)), textual(strip(before))), name + ": a decoded value passes input checking unchanged")
        c.check(c.same(textual(strip(checkData(before, t))), textual(strip(before))), name + ": a native value passes input checking unchanged")
        c.check(c.same(v, before), name + ": value unmodified")
        u = jsonEncoder(t, v, tagged=False)
        c.check(c.same(u, untag(textual(before), schema, names)), name + ": the untagged encoding is the encoding without tags")
    return Job("roundtrip." + name, fn, setup, **kw)


def untag(v, t, names):
    if isinstance(t, str) and t in names:
        t = names[t]
    k = kind(t)
    if k == "union":
        if v is None:
            return None
        (tag, x), = v.items()
        u, = [y for y in t if (tagof(y) if not (isinstance(y, str) and y in names) else y) == tag]
        return untag(x, u, names)
    if k == "array":
        return [untag(x, t["items"], names) for x in v]
    if k == "map":
        return dict((n, untag(x, t["values"], names)) for n, x in v.items())
    if k == "record":
        return dict((f["name"], untag(v[f["name"]], f["type"], names)) for f in t["fields"])
    return v


def rgen(c, n, t, names, b, d):
    """gen with named references and namespaces (recursion cut at depth d)"""
    if isinstance(t, str) and t in names:
        t = names[t]
    k = kind(t)
    if k == "union":
        alts = [x for x in t if not (d <= 0 and isinstance(x, str) and x in names)]
        i = c.choice(n + "|", list(range(len(alts))))
        if alts[i] == "null":
            return None
        tag = alts[i] if isinstance(alts[i], str) and alts[i] in names else tagof(alts[i])
        return {tag: rgen(c, "%s|%d" % (n, i), alts[i], names, b, d)}
    if k == "array":
        m = c.choice(n + ".len", list(range(b.arr + 1)))
        return [rgen(c, "%s.%d" % (n, i), t["items"], names, b, d) for i in range(m)]
    if k == "map":
        out = {}
        for key in b.keys:
            if c.choice(n + "?" + key, [False, True]):
                out[key] = rgen(c, n + "." + key, t["values"], names, b, d)
        return out
    if k == "record":
        return dict((f["name"], rgen(c, n + "." + f["name"], f["type"], names, b, d - 1)) for f in t["fields"])
    return gen(c, n, t, b)


def native(name, schema, d, prims, keys, inner=None, **kw):
    """checkData accepts exactly the conforming native values (numbers may also come as text, as from CSV; such
    text and untagged union values are not judged) and normalises them"""
    names = defs(schema, {})

    def setup():
        return parse(schema)

    def fn(c, t):
        from titus.datatype import checkData
        x = jgen(c, "x", d, prims, keys, inner)
        before = copy_tree(x)
        try:
            want = ("ok", check(c, schema, before, names))
        except Refuse:
            want = ("refused", None)
        if want[0] == "ok" and hasmark(want[1], "skip"):
            return
        try:
            got = ("ok", checkData(x, t))
        except TypeError:
            got = ("refused", None)
        c.observe("kind", got[0])
        c.check(got[0] == want[0], name + ": accepted exactly when the value conforms")
        if got[0] == "ok":
            c.check(c.same(strip(got[1]), strip(want[1])), name + ": normalised value")
        c.check(c.same(x, before), name + ": input unmodified")
    return Job("check." + name, fn, setup, **kw)


def check(c, t, x, names):
    if isinstance(t, str) and t in names:
        t = names[t]
    k = kind(t)
    if k == "union":
        if x is None:
            if "null" in t:
                return None
            raise Refuse()
        if isinstance(x, dict) and len(x) == 1:
            (tag, v), = x.items()
            for y in t:
                if tag == (tagof(y) if not (isinstance(y, str) and y in names) else y):
                    r = check(c, y, v, names)
                    return (r if isinstance(r, tuple) else ("either",)) if tag == "null" else {tag: r}
            raise Refuse()
        if isinstance(x, str):
            return ("skip",)            # untagged text: coerced to the first alternative that can read it
        for y in t:
            try:
                r = check(c, y, x, names)
            except Refuse:
                continue
            return {tagof(y) if not (isinstance(y, str) and y in names) else y: r}
        raise Refuse()
    if isinstance(x, str) and k in ("null", "boolean", "int", "long", "float", "double"):
        return ("skip",)
    if k == "null":
        ok = x is None
    elif k == "boolean":
        ok = isinstance(x, bool)
    elif k in ("int", "long"):
        lo, hi = (INT_MIN, INT_MAX) if k == "int" else (LONG_MIN, LONG_MAX)
        ok = isinstance(x, int) and not isinstance(x, bool) and c.and_(x >= lo, x <= hi)
    elif k in ("float", "double"):
        ok = isinstance(x, (int, float)) and not isinstance(x, bool)
    elif k == "string":
        ok = isinstance(x, str)
    elif k in ("bytes", "fixed"):
        ok = isinstance(x, (bytes, str)) and (k == "bytes" or len(x) == t["size"]) and (isinstance(x, bytes) or latin(c, x))
        if ok and isinstance(x, str):
            from titus.datatype import stringToBytes
            return stringToBytes(x)
    elif k == "enum":
        ok = isinstance(x, str)
        if ok and c.not_(c.or_(False, *[x == s for s in t["symbols"]])) and c.known("check-enum", True):
            return ("skip",)
        ok = ok and c.or_(False, *[x == s for s in t["symbols"]])
    elif k == "array":
        if not isinstance(x, list):
            raise Refuse()
        return [check(c, t["items"], y, names) for y in x]
    elif k == "map":
        if not isinstance(x, dict):
            raise Refuse()
        return dict((n, check(c, t["values"], y, names)) for n, y in x.items())
    elif k == "record":
        if not isinstance(x, dict):
            raise Refuse()
        out = {}
        for f in t["fields"]:
            if f["name"] not in x:
                raise Refuse()
            out[f["name"]] = check(c, f["type"], x[f["name"]], names)
        return out
    if not ok:
        raise Refuse()
    return x


def jobs(tier):
    deep = tier == "thorough"
    P, PS = ["null", "bool", "int", "real", "str"], ["null", "bool", "int", "real", "sym"]
    K1 = ["", "a"]
    for n in ["null", "boolean", "int", "long", "float", "double", "string"]:
        yield dec(n, SCHEMAS[n], 1, P, K1)
    yield dec("enum", EN, 1, PS + ["str"], K1)
    yield dec("enum-ns", NS, 1, PS, K1)
    yield dec("bytes", "bytes", 1, P, K1)
    yield dec("fixed", FX, 1, P, K1)
    yield dec("array-int", A("int"), 2 if deep else 1, P, K1)
    yield dec("array-union", A(["null", "int", "string"]), 2, ["null", "int", "str"], [(), ("int",), ("string",), ("null",), ("int", "string"), ("double",)], limit=300)
    yield dec("map-long", M("long"), 1, P, ["", "a", "ab"])
    yield dec("map-array", M(A("double")), 2, ["null", "int", "real"], ["", "a", "ab"], limit=300)
    yield dec("record", R, 1, P, ["", "a", "b", "ab"])
    yield dec("record-extra", R, 1, ["int", "str"], ["abc"])
    yield dec("record-default", RD, 2, ["null", "int", "str"], [(), ("a",), ("b",), ("a", "b"), ("a", "b", "c")], [(), ("string",)], limit=300)
    yield dec("record-ns", RU, 2, ["null", "int", "str"], [(), ("v",), ("k", "v")], [("string",), ("int",)], limit=300)
    yield dec("union", SCHEMAS["union"], 1, P, [(), ("null",), ("int",), ("string",), ("boolean",), ("double",), ("int", "string")])
    yield dec("union-named", SCHEMAS["union-named"], 2, ["null", "int", "sym"], [(), ("Fx",), ("En",), ("R",), ("record",), ("enum",)], [(), ("a", "b"), ("a",)], limit=300)
    yield dec("union-ns", SCHEMAS["union-ns"], 1, ["null", "sym"], [(), ("En",), ("com.ex.En",), ("p.R",), ("R",)])
    yield dec("tree", TREE, 2 if not deep else 3, ["null", "int"], [(), ("v", "l"), ("T",), ("v",), ("null",)], limit=400)
    for n, s in SCHEMAS.items():
        yield roundtrip(n, s, B(arr=3 if n not in ("map-array", "array-array") else 2, keys="ab", slen=3 if deep or kind(s) not in ("array", "map", "record", "union") else 1, special=("nan", "inf") if n in ("double",) else ()), limit=300)
    PN = P + ["bytes"]
    for n in ["null", "boolean", "int", "long", "float", "double", "string", "bytes"]:
        yield native(n, SCHEMAS[n], 1, PN, K1)
    yield native("fixed", FX, 1, PN, K1)
    yield native("enum", EN, 1, PS + ["bytes"], K1)
    yield native("array-int", A("int"), 1, PN, K1)
    yield native("array-array", A(A("int")), 2, ["null", "int", "real", "bytes"], K1, limit=300)
    yield native("map-long", M("long"), 1, PN, ["", "a", "ab"])
    yield native("record", R, 1, PN, ["", "a", "b", "ab"], limit=300)
    yield native("record-extra", R, 1, ["int", "str"], ["abc"])
    yield native("record-ns", RU, 2, ["null", "int", "bytes"], [(), ("v",), ("k", "v")], [("string",), ("int",)], limit=300)
    yield native("union", SCHEMAS["union"], 1, PN, [(), ("null",), ("int",), ("string",), ("boolean",), ("double",), ("int", "string")])
    yield native("union-named", SCHEMAS["union-named"], 2, ["null", "int", "sym", "bytes"], [(), ("Fx",), ("En",), ("R",), ("record",)], [(), ("a", "b"), ("a",)], limit=300)
    yield native("union-ns", SCHEMAS["union-ns"], 1, ["null", "sym"], [(), ("En",), ("com.ex.En",), ("p.R",), ("R",)])
    yield native("union-containers", SCHEMAS["union-containers"], 1, PN, [(), ("array",), ("map",), ("double",), ("a", "b")])
