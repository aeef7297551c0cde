"""C05: cast, ifnotnull and unions - the branch taken is the first one accepting the value's own type, and it sees the value itself."""
from harness.lib import *

R1 = {"type": "record", "name": "R1", "namespace": "a.b", "fields": [{"name": "x", "type": "int"}]}
R2 = {"type": "record", "name": "R2", "fields": [{"name": "x", "type": "int"}, {"name": "y", "type": "string"}]}
R3 = {"type": "record", "name": "R3", "fields": [{"name": "int", "type": "int"}]}
R4 = {"type": "record", "name": "R4", "fields": [{"name": "R4", "type": "double"}]}
E1 = {"type": "enum", "name": "E1", "namespace": "a.b", "symbols": ["p", "q"]}
X1 = {"type": "fixed", "name": "X1", "namespace": "a.b", "size": 2}
AI, MI, AS, MR = {"type": "array", "items": "int"}, {"type": "map", "values": "int"}, {"type": "array", "items": "string"}, {"type": "map", "values": "R2"}
TAG = {"R1": "a.b.R1", "R2": "R2", "R3": "R3", "R4": "R4", "E1": "a.b.E1", "X1": "a.b.X1", "AI": "array", "MI": "map", "AS": "array"}
TYPES = {"R1": R1, "R2": R2, "R3": R3, "R4": R4, "E1": E1, "X1": X1, "AI": AI, "MI": MI, "AS": AS}
NUM = ["int", "long", "float", "double"]

UNIONS = [
    ["null", "float", "string"], ["null", "int"], ["null", "long", "string"], ["int", "double"], ["int", "string", "boolean"], ["null", "R1"], ["R1", "R2"], ["null", "MI"], ["MI", "int"],
    ["AI", "MI", "null"], ["R3", "int"], ["R3", "string", "null"], ["R4", "double"], ["MI", "R3"], ["null", "E1"], ["E1", "string"], ["X1", "int"], ["R1", "E1", "X1", "AI"], ["null", "R2", "string"], ["long", "float"],
    ["null", "float", "double"], ["int", "long", "string"], ["float", "int", "double"], ["null", "double", "E1"],
]


def T(n, seen):
    """the type; a named type is spelled out once"""
    if n in ("R1", "R2", "R3", "R4", "E1", "X1"):
        if n in seen:
            return TAG[n]
        seen.add(n)
    return TYPES.get(n, n)


def describe(n, x):
    if n in NUM:
        return {"+": [x, 0.5]}
    if n == "string":
        return {"s.len": x}
    if n in ("AI", "AS"):
        return {"a.len": x}
    if n == "MI":
        return {"attr": x, "path": [{"string": "k"}]} if False else {"map.len": x}
    if n in ("R1", "R2"):
        return x + ".x"
    if n == "R3":
        return x + ".int"
    if n == "R4":
        return x + ".R4"
    if n == "boolean":
        return {"if": x, "then": 1, "else": 0}
    if n == "E1":
        return {"enum.toInt": [x]} if False else {"if": {"==": [{"enum.toString": x}, ["q"]]}, "then": 1, "else": 0}
    if n == "X1":
        return {"bytes.len": {"fixed.toBytes": x}}
    return 0


def value(c, n):
    """(value, what describe gives)"""
    if n == "null":
        return None, 0
    if n in ("int", "long"):
        v = c.int("v", -1000, 1000)
        return v, v + 0.5
    if n in ("float", "double"):
        v = c.real("v", -8, 8)
        return v, v + 0.5
    if n == "boolean":
        v = c.bool("v")
        return v, (1 if v else 0)
    if n == "string":
        v = c.choice("v", ["", "int", "abc"])
        return v, len(v)
    if n == "AI":
        k = c.choice("n", [0, 1, 2])
        return [c.int("e%d" % i, -5, 5) for i in range(k)], k
    if n == "MI":
        keys = c.choice("keys", [[], ["k"], ["int"], ["map"], ["R3"], ["k", "int"]])
        return dict((k, c.int("e." + k, -5, 5)) for k in keys), len(keys)
    if n == "E1":
        v = c.choice("v", ["p", "q"])
        return v, (1 if v == "q" else 0)
    if n == "X1":
        return "ab", 2
    i = c.int("v", -1000, 1000)
    if n == "R1":
        return {"x": i}, i
    if n == "R2":
        return {"x": i, "y": "t"}, i
    if n == "R3":
        return {"int": i}, i
    d = c.real("v.d", -8, 8)
    return {"R4": d}, d


def accepts(case, n):
    return case == n or (case in NUM and n in NUM and NUM.index(n) <= NUM.index(case))


OUT = {"type": "array", "items": "double"}


def tagged(n, v):
    return None if n == "null" else {TAG.get(n, n): v}


def family(union, orders):
    docs = {}
    for label, order in orders:
        for partial in (False, True):
            if not all(any(accepts(n, o) for n in union) for o in order) or not partial and not set(union) <= set(order):
                continue            # refused by the type check
            seen = set()
            inp = [T(n, seen) for n in union]
            cases = []
            for i, n in enumerate(order):
                r = {"type": OUT, "new": [i, describe(n, "z")]}
                cases.append({"as": T(n, seen), "named": "z", "do": [{"set": {"o": r}}] if partial else r})
            if partial:
                act_ = [{"let": {"o": {"type": OUT, "new": [-1, 0]}}}, {"cast": "input", "cases": cases, "partial": True}, "o"]
                cast2 = [{"let": {"o": {"type": OUT, "new": [-1, 0]}, "u": {"type": {"type": "array", "items": [TAG_or(n) for n in union]}, "new": ["input"]}}}, {"cast": "u.0", "cases": cases, "partial": True}, "o"]
            else:
                act_ = [{"cast": "input", "cases": cases}]
                cast2 = [{"let": {"u": {"type": {"type": "array", "items": [TAG_or(n) for n in union]}, "new": ["input"]}}}, {"cast": "u.0", "cases": cases}]
            base = {"input": inp, "output": OUT}
            docs[(label, partial, "input")] = (dict(base, action=act_), order)
            docs[(label, partial, "item")] = (dict(base, action=cast2), order)
    return docs


def TAG_or(n):
    return {"AI": AI, "MI": MI, "AS": AS}.get(n, TAG.get(n, n))


def casts(union):
    orders = [("same", list(union)), ("reversed", list(reversed(union)))]
    wide = ["double" if n in NUM else n for n in union]
    if len(set(wide)) == len(wide) and wide != union:
        orders.append(("widened", wide))
        orders.append(("both", wide + [n for n in union if n not in wide]))
    if "int" in union and "long" not in union:
        orders.append(("long", ["long" if n == "int" else n for n in union]))
    if "double" in union:
        orders.append(("narrow first", ["int"] + [n for n in union if n != "int"]))
        orders.append(("double first", ["double"] + [n for n in union if n != "double"]))
    if "long" in union:
        orders.append(("int first", ["int"] + [n for n in union if n != "int"]))
        orders.append(("long first", ["long"] + [n for n in union if n != "long"]))
    orders.append(("first", [union[0]]))
    orders.append(("last", [union[-1]]))

    def setup():
        return dict((k, (make_engine(d), o)) for k, (d, o) in family(union, orders).items())

    def fn(c, env):
        k = c.choice("program", sorted(env))
        engine, order = env[k]
        n = c.choice("alternative", list(union))
        v, d = value(c, n)
        got = act(engine, tagged(n, v))
        i = None
        for j, o in enumerate(order):
            if accepts(o, n):
                i = j
                break
        want = [-1, 0] if i is None else [i, d]
        if got[0] != "ok":
            return c.fail("cast %s %s: unexpected %s" % (union, k, got))
        c.check(c.and_(got[1][0] == want[0], c.eq(got[1][1], want[1], 1e-9)), "cast %s %s" % ("/".join(union), " ".join(str(x) for x in k)))
    return Job("cast types " + "/".join(union), fn, setup, limit=60, bound="integers in [-1000, 1000], reals in [-8, 8], texts and keys from short lists")


def notnull(n):
    """ifnotnull with one and with two variables"""
    def setup():
        seen = set()
        out = {}
        t = T(n, seen)
        d = describe(n, "z")
        out["else"] = make_engine({"input": ["null", t], "output": OUT, "action": {"ifnotnull": {"z": "input"}, "then": {"type": OUT, "new": [1, d]}, "else": {"type": OUT, "new": [-1, 0]}}})
        out["plain"] = make_engine({"input": ["null", t], "output": OUT, "action": [{"let": {"o": {"type": OUT, "new": [-1, 0]}}}, {"ifnotnull": {"z": "input"}, "then": [{"set": {"o": {"type": OUT, "new": [1, d]}}}]}, "o"]})
        out["two"] = make_engine({"input": ["null", t], "output": OUT, "action": {"ifnotnull": {"z": "input", "w": {"upcast": "input", "as": ["null", TAG_or(n)]}}, "then": {"type": OUT, "new": [1, describe(n, "w")]}, "else": {"type": OUT, "new": [-1, 0]}}})
        return out

    def fn(c, env):
        k = c.choice("program", sorted(env))
        if c.choice("null", [False, True]):
            v, want = None, [-1, 0]
        else:
            v, d = value(c, n)
            v, want = tagged(n, v), [1, d]
        got = act(env[k], v)
        if got[0] != "ok":
            return c.fail("ifnotnull %s: unexpected %s" % (n, got))
        c.check(c.and_(got[1][0] == want[0], c.eq(got[1][1], want[1], 1e-9)), "ifnotnull %s %s" % (n, k))
    return Job("ifnotnull " + n, fn, setup, limit=60, bound="integers in [-1000, 1000], reals in [-8, 8], texts and keys from short lists")


def jobs(tier):
    for u in UNIONS:
        yield casts(u)
    for n in ["int", "long", "float", "double", "string", "boolean", "R1", "R2", "R3", "R4", "E1", "X1", "AI", "MI"]:
        yield notnull(n)
