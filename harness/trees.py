"""model.tree.* (lib/model/tree.py)."""
from harness.lib import *
from harness.hof import fdef

OPS = ["<", "<=", ">", ">=", "==", "!=", "in", "notIn", "alwaysTrue", "alwaysFalse", "isMissing", "notMissing", "=", ""]
DAT = {"type": "record", "name": "Dat", "fields": [
    {"name": "x", "type": "int"}, {"name": "y", "type": "double"}, {"name": "s", "type": "string"}, {"name": "b", "type": "boolean"}, {"name": "m", "type": ["null", "int"]}, {"name": "t", "type": ["string", "null"]}]}
FIELDS = ["x", "y", "s", "b", "m", "t"]
FE = {"type": "enum", "name": "Fields", "symbols": FIELDS}
FT = dict((f["name"], f["type"]) for f in DAT["fields"])
INT, STR, NUM = ("int", "long"), ("string",), ("int", "long", "float", "double")
AI, AS = {"type": "array", "items": "int"}, {"type": "array", "items": "string"}


def tag(t):
    return t if isinstance(t, str) else t.get("name", t["type"])


def order(op, a, b, bad):
    if op == "<":
        return a < b
    if op == "<=":
        return a <= b
    if op == ">":
        return a > b
    if op == ">=":
        return a >= b
    if op == "==":
        return a == b
    if op == "!=":
        return a != b
    raise Err(bad)


def accepts(v, f):
    """does a value type (no containers of containers here) accept field type f"""
    if isinstance(v, list):
        return all([any([accepts(x, y) for x in v]) for y in f]) if isinstance(f, list) else any([accepts(x, f) for x in v])
    if isinstance(f, list):
        return all([accepts(v, y) for y in f])
    order_ = list(NUM)
    if v in order_ and f in order_:
        return order_.index(f) <= order_.index(v)
    return v == f


def compare_oracle(c, V, dat, cmpn, base, missing):
    """The comparison denoted by {field, operator, value}; None when the field is missing (missingTest)."""
    f, op, value = cmpn["field"], cmpn["operator"], cmpn["value"]
    ft, x = FT[f], dat[f]
    if missing and isinstance(ft, list):
        ft, = [t for t in ft if t != "null"]
        x = None if x is None else x[tag(ft)]
    if op == "alwaysTrue":
        return True
    if op == "alwaysFalse":
        return False
    if not missing and op == "isMissing":
        return x is None
    if not missing and op == "notMissing":
        return x is not None
    if op in ("in", "notIn"):
        alts = [t for t in (V if isinstance(V, list) else [V]) if isinstance(t, dict) and t["type"] == "array"]
        if not any([accepts(t["items"], ft) for t in alts]):
            raise Err(base + 1)
        if isinstance(V, list):
            if not (isinstance(value, dict) and tag({"type": "array"}) in value):
                raise Err(SKIP)         # the value is not an array at all: outside what the type promises
            value = value["array"]
        if x is None:
            if missing:
                return None
            raise Err(SKIP)
        hit = c.or_(False, *[x == v for v in value]) if all([isinstance(v, str) == isinstance(x, str) for v in value]) else False
        return hit if op == "in" else c.not_(hit)
    if not (accepts(V, ft) or (V in NUM and ft in NUM)):
        raise Err(base + 1)
    if x is None and missing:
        return None
    if isinstance(ft, list):
        raise Err(SKIP)
    if isinstance(V, list):
        (k, value), = value.items() if isinstance(value, dict) else [(None, None)]
        if ft in NUM:
            if k not in NUM:
                raise Err(base + 1)
        elif k != ft:
            raise Err(SKIP)
    return order(op, x, value, base)


def nullable(c, out):
    """as the engine represents a value of the union of null and boolean"""
    return None if out is None else {"boolean": out}


B1 = B(arr=2, slen=1, alphabet=[(97, 99)])
VALUES = {"int": "int", "double": "double", "string": "string", "numbers or strings": ["double", "string"], "anything": ["int", "string", AI], "long or float": ["long", "float"], "ints": AI, "strings": AS}


def tests():
    for nm, V in VALUES.items():
        T = {"type": "record", "name": "Cmp", "fields": [{"name": "field", "type": FE}, {"name": "operator", "type": "string"}, {"name": "value", "type": V}]}

        def g(c, n, T=T):
            return {"field": c.choice(n + ".field", FIELDS), "operator": c.choice(n + ".op", OPS), "value": gen(c, n + ".value", T["fields"][2]["type"], B1)}

        def datum(c, n):
            return gen(c, n, DAT, B1)
        yield F("model.tree.simpleTest " + nm, {"d": DAT, "q": T}, "boolean", {"model.tree.simpleTest": ["input.d", "input.q"]},
                lambda c, d, q, V=V: compare_oracle(c, V, d, q, 32000, False), gens={"q": g, "d": datum}, limit=240)
        yield F("model.tree.missingTest " + nm, {"d": DAT, "q": T}, ["null", "boolean"], {"model.tree.missingTest": ["input.d", "input.q"]},
                lambda c, d, q, V=V: nullable(c, compare_oracle(c, V, d, q, 32010, True)), gens={"q": g, "d": datum}, limit=240)


SIMPLE = {"type": "record", "name": "Dat", "fields": [{"name": "x", "type": "int"}, {"name": "m", "type": ["null", "int"]}]}


def compound():
    T = {"type": "record", "name": "Cmp", "fields": [{"name": "lo", "type": "int"}]}
    TA = {"type": "array", "items": T}

    def o(c, d, op, qs):
        r = [q["lo"] < d["x"] for q in qs]
        if op == "and":
            return c.and_(True, *r)
        if op == "or":
            return c.or_(False, *r)
        if op == "xor":
            return sum([1 if v else 0 for v in r]) % 2 == 1
        raise Err(32020)
    D = {"type": "record", "name": "Dat", "fields": [{"name": "x", "type": "int"}]}
    yield F("model.tree.compoundTest", {"d": D, "op": "string", "qs": TA}, "boolean",
            {"model.tree.compoundTest": ["input.d", "input.op", "input.qs", {"params": [{"d": "Dat"}, {"q": "Cmp"}], "ret": "boolean", "do": {"<": ["q.lo", "d.x"]}}]}, o,
            gens={"op": lambda c, n: c.choice(n, ["and", "or", "xor", "nand", ""])})

    # surrogates: the first comparison that is not missing decides
    def s(c, d, qs):
        for q in qs:
            if q["on"]:
                if d["m"] is not None:
                    return d["m"]["int"] < q["lo"]
            else:
                return d["x"] < q["lo"]
        raise Err(32030)
    T2 = {"type": "record", "name": "Cmp", "fields": [{"name": "lo", "type": "int"}, {"name": "on", "type": "boolean"}]}
    test = {"params": [{"d": "Dat"}, {"q": "Cmp"}], "ret": ["null", "boolean"], "do": {"if": "q.on", "then": {"ifnotnull": {"v": "d.m"}, "then": {"<": ["v", "q.lo"]}, "else": None}, "else": {"<": ["d.x", "q.lo"]}}}
    yield F("model.tree.surrogateTest", {"d": SIMPLE, "qs": {"type": "array", "items": T2}}, "boolean", {"model.tree.surrogateTest": ["input.d", "input.qs", test]}, s, B(arr=2))

    T3 = {"type": "record", "name": "Cmp", "fields": [{"name": "field", "type": {"type": "enum", "name": "Fields", "symbols": ["x", "m"]}}, {"name": "operator", "type": "string"}, {"name": "value", "type": "int"}]}

    def s3(c, d, qs):
        for q in qs:
            v = d["x"] if q["field"] == "x" else d["m"]["int"] if d["m"] else None
            if v is not None:
                return order(q["operator"], v, q["value"], 32010)
        raise Err(32030)

    def g3(c, n):
        return [{"field": c.choice(n + "f%d" % i, ["x", "m"]), "operator": c.choice(n + "o%d" % i, ["<", "=="]), "value": c.int(n + "v%d" % i)} for i in range(c.choice(n, [0, 1, 2]))]
    yield F("model.tree.surrogateTest of missingTest", {"d": SIMPLE, "qs": {"type": "array", "items": T3}}, "boolean",
            {"model.tree.surrogateTest": ["input.d", "input.qs", {"params": [{"d": "Dat"}, {"q": "Cmp"}], "ret": ["null", "boolean"], "do": {"model.tree.missingTest": ["d", "q"]}}]}, s3, gens={"qs": g3})


def node_type(name, leaf, missing, ns=None, field=True):
    full = (ns + "." if ns else "") + name
    fs = [{"name": "field", "type": {"type": "enum", "name": "Fields", "symbols": ["x", "y"]}}, {"name": "operator", "type": "string"}, {"name": "value", "type": "double"}] if field else [{"name": "cut", "type": "int"}]
    for b in ["pass", "fail"] + (["missing"] if missing else []):
        fs.append({"name": b, "type": [full] + leaf})
    t = {"type": "record", "name": name, "fields": fs}
    if ns:
        t["namespace"] = ns
    return t


def tree(c, n, depth, leaves, missing, field, tg):
    """An arbitrary tree of the given depth: thresholds symbolic, shape chosen."""
    lead = n == "n" and depth < 2
    out = {"field": c.choice(n + ".f", ["x", "y"]) if lead else "x", "operator": c.choice(n + ".o", ["<", "==", ">="]) if lead else "<", "value": c.real(n + ".v")} if field else {"cut": c.int(n + ".c")}
    for b in ["pass", "fail"] + (["missing"] if missing else []):
        if depth > 0 and c.choice(n + "." + b, ["leaf", "node"]) == "node":
            out[b] = {tg: tree(c, n + "." + b[0], depth - 1, leaves, missing, field, tg)}
        else:
            out[b] = leaves(c, n + "." + b[0] + ".leaf")
    return out


def walks():
    D = {"type": "record", "name": "Dat", "fields": [{"name": "x", "type": "int"}, {"name": "y", "type": "double"}]}
    intleaf = lambda c, n: {"int": c.int(n)}
    variants = [("", None, ["int"], "int", intleaf, lambda v: v["int"])]
    R = {"type": "record", "name": "Score", "fields": [{"name": "value", "type": "int"}]}
    variants.append((" record leaves", None, ["Score"], R, lambda c, n: {"Score": {"value": c.int(n)}}, lambda v: v["Score"]))
    variants.append((" namespaced", "com.example", ["int"], "int", intleaf, lambda v: v["int"]))
    variants.append((" union leaves", None, ["int", "null"], ["int", "null"], lambda c, n: {"int": c.int(n)} if c.choice(n + "?", [True, False]) else None, lambda v: v))
    for nm, ns, leaf, ret, mk, un in variants:
        full = (ns + "." if ns else "") + "Node"
        for depth in ((1, 2) if nm == "" else (1,)):
            if nm == " union leaves":
                continue

            def descend(node, test, full=full, un=un):
                while True:
                    r = test(node)
                    nxt = node["pass" if r is True else "fail" if r is False else "missing"]
                    if isinstance(nxt, dict) and full in nxt:
                        node = nxt[full]
                    else:
                        return un(nxt)

            def simple(c, d, n, descend=descend):
                return descend(n, lambda q: bool(order(q["operator"], d[q["field"]], q["value"], 0)))
            g = lambda c, n, depth=depth, mk=mk, full=full: tree(c, n, depth, mk, False, True, full)
            T = node_type("Node", [R if l == "Score" else l for l in leaf], False, ns)
            yield F("model.tree.simpleTree depth %d%s" % (depth, nm), {"d": D, "n": T}, ret, {"model.tree.simpleTree": ["input.d", "input.n"]}, simple, gens={"n": g}, limit=300)

            def walk(c, d, n, descend=descend):
                return descend(n, lambda q: bool(d["x"] < q["cut"]))
            g2 = lambda c, n, depth=depth, mk=mk, full=full: tree(c, n, depth, mk, False, False, full)
            T2 = node_type("Node", [R if l == "Score" else l for l in leaf], False, ns, False)
            yield F("model.tree.simpleWalk depth %d%s" % (depth, nm), {"d": D, "n": T2}, ret,
                    {"model.tree.simpleWalk": ["input.d", "input.n", {"params": [{"d": "Dat"}, {"n": full}], "ret": "boolean", "do": {"<": ["d.x", "n.cut"]}}]}, walk, gens={"n": g2}, limit=300)

            def mwalk(c, d, n, descend=descend):
                return descend(n, lambda q: None if d["m"] is None else bool(d["m"]["int"] < q["cut"]))
            g3 = lambda c, n, depth=depth, mk=mk, full=full: tree(c, n, min(depth, 1), mk, True, False, full)
            T3 = node_type("Node", [R if l == "Score" else l for l in leaf], True, ns, False)
            test = {"params": [{"d": "Dat"}, {"n": full}], "ret": ["null", "boolean"], "do": {"ifnotnull": {"v": "d.m"}, "then": {"<": ["v", "n.cut"]}, "else": None}}
            yield F("model.tree.missingWalk depth %d%s" % (depth, nm), {"d": SIMPLE, "n": T3}, ret, {"model.tree.missingWalk": ["input.d", "input.n", test]}, mwalk, gens={"n": g3}, limit=300)

    # errors inside a tree surface from the node that is reached
    T = node_type("Node", ["int"], False)

    def err(c, d, n):
        r = order(n["operator"], d[n["field"]], n["value"], 32060)
        return (n["pass"] if r else n["fail"])["int"]
    yield F("model.tree.simpleTree operators", {"d": D, "n": T}, "int", {"model.tree.simpleTree": ["input.d", "input.n"]}, err,
            gens={"n": lambda c, n: {"field": c.choice(n + "f", ["x", "y"]), "operator": c.choice(n + "o", ["<", "<=", ">", ">=", "==", "!=", "=<", "lt"]), "value": c.real(n + "v"), "pass": {"int": c.int(n + "p")}, "fail": {"int": c.int(n + "q")}}})


def jobs(tier):
    for f in (tests, compound, walks):
        for j in f():
            yield j
