"""One total order on values (titus/datatype.py compare; operators, max/min, sorting in lib/core.py, lib/array.py, lib/map.py)."""
from harness.lib import *
from harness.typeacc import kind, full, tagof, parse
from harness.codec import rgen, defs, textual

A = lambda t: {"type": "array", "items": t}
FX = {"type": "fixed", "name": "Fx", "size": 2}
EN = {"type": "enum", "name": "En", "symbols": ["red", "green", "blue"]}
EN2 = {"type": "enum", "name": "En2", "namespace": "n.s", "symbols": ["b", "a"]}
REC = {"type": "record", "name": "Rec", "fields": [{"name": "p", "type": "int", "order": "descending"}, {"name": "q", "type": "string", "order": "ignore"}, {"name": "r", "type": "double"}]}
REC2 = {"type": "record", "name": "Rec2", "fields": [{"name": "a", "type": A("int"), "order": "descending"}, {"name": "b", "type": ["null", "string"], "order": "ascending"}]}
REC3 = {"type": "record", "name": "Outer", "fields": [{"name": "i", "type": {"type": "record", "name": "Inner", "fields": [{"name": "x", "type": "boolean", "order": "descending"}]}, "order": "descending"}, {"name": "e", "type": EN}]}
TREE = {"type": "record", "name": "Tree", "fields": [{"name": "v", "type": "int"}, {"name": "l", "type": ["Tree", "null"]}]}
SCH = {
    "null": ("null", B()), "boolean": ("boolean", B()), "int": ("int", B()), "long": ("long", B()), "float": ("float", B(special=("nan", "inf", "-inf"))), "double": ("double", B(special=("nan", "inf", "-inf"))),
    "string": ("string", B(slen=2)), "bytes": ("bytes", B(slen=2)), "fixed": (FX, B()), "enum": (EN, B()), "enum-ns": (EN2, B()),
    "array-int": (A("int"), B(arr=2)), "array-double": (A("double"), B(arr=1, special=("nan",))), "array-array": (A(A("boolean")), B(arr=1)), "array-enum": (A(EN), B(arr=2)),
    "record": (REC, B(slen=1)), "record-nested": (REC2, B(arr=1, slen=1)), "record-deep": (REC3, B()), "tree": (TREE, B()),
    "union": (["null", "int", "string"], B(slen=1)), "union-num": (["double", "int", "long"], B()), "union-named": ([EN, FX, REC], B(slen=1)), "union-array": ([A("int"), "null"], B(arr=1)),
}


def sgn(c, x, y):
    return c.ite(x < y, -1, c.ite(x > y, 1, 0))


def lex(c, x, y, f):
    """first difference, then length"""
    out = (len(x) > len(y)) - (len(x) < len(y))
    for a, b in reversed(list(zip(x, y))):
        d = f(a, b)
        out = c.ite(d != 0, d, out)
    return out


def order(c, t, x, y, names):
    """Reference order: -1, 0 or 1."""
    if isinstance(t, str) and t in names:
        t = names[t]
    k = kind(t)
    if k == "null":
        return 0
    if k == "boolean":
        return c.ite(x, c.ite(y, 0, 1), c.ite(y, -1, 0))
    if k in ("int", "long", "float", "double"):
        if k in ("float", "double") and (x != x or y != y):
            return (1 if x != x else 0) - (1 if y != y else 0)
        return sgn(c, x, y)
    if k == "string":
        return lex(c, x, y, lambda a, b: sgn(c, ord(a), ord(b)))
    if k in ("bytes", "fixed"):
        return lex(c, list(textual(x)), list(textual(y)), lambda a, b: sgn(c, ord(a), ord(b)))
    if k == "enum":
        i, j = t["symbols"].index(x), t["symbols"].index(y)
        return (i > j) - (i < j)
    if k == "array":
        return lex(c, x, y, lambda a, b: order(c, t["items"], a, b, names))
    if k == "record":
        out = 0
        for f in reversed(t["fields"]):
            o = f.get("order", "ascending")
            if o != "ignore":
                d = order(c, f["type"], x[f["name"]], y[f["name"]], names)
                d = -d if o == "descending" else d
                out = c.ite(d != 0, d, out)
        return out
    i, a = alt(t, x, names)
    j, b = alt(t, y, names)
    return order(c, t[i], a, b, names) if i == j else (i > j) - (i < j)


def absorbed(t):
    """The common type of two values of a union type: numeric alternatives merge into the widest one."""
    if not isinstance(t, list):
        return t
    num = [x for x in t if x in ("int", "long", "float", "double")]
    if len(num) < 2:
        return t
    w = max(num, key=["int", "long", "float", "double"].index)
    out = []
    for x in t:
        if x not in num:
            out.append(x)
        elif w not in out:
            out.append(w)
    return out


def alt(t, x, names):
    if x is None:
        return t.index("null"), None
    (tag, v), = x.items()
    if tag in ("int", "long", "float", "double") and tag not in t:
        tag, = [u for u in t if u in ("long", "float", "double")]
    return [i for i, u in enumerate(t) if (u if isinstance(u, str) and u in names else tagof(u)) == tag][0], v


OPS = [("cmp", "cmp"), ("eq", "=="), ("ne", "!="), ("lt", "<"), ("le", "<="), ("gt", ">"), ("ge", ">=")]


def operators(name, t, b, **kw):
    """operators, max and min agree with the reference order"""
    names = defs(t, {})
    t0 = t

    def setup():
        from titus.genpy import PFAEngine
        ref = full(t) if isinstance(t, dict) and "name" in t else None
        out = {"type": "record", "name": "SxOut", "fields": [{"name": "cmp", "type": "int"}] + [{"name": n, "type": "boolean"} for n, o in OPS[1:]]}
        doc = {"input": {"type": "record", "name": "SxInput", "fields": [{"name": "x", "type": t}, {"name": "y", "type": t}]}, "output": out,
               "action": {"new": dict((n, {o: ["input.x", "input.y"]}) for n, o in OPS), "type": "SxOut"}}
        doc2 = {"input": {"type": "record", "name": "SxInput", "fields": [{"name": "x", "type": t}, {"name": "y", "type": t}]}, "output": A(t),
                "action": {"new": [{"max": ["input.x", "input.y"]}, {"min": ["input.x", "input.y"]}], "type": A(t)}}
        return make_engine(dedup(doc)), make_engine(dedup(doc2))

    def fn(c, env):
        x, y = rgen(c, "x", t0, names, b, 1), rgen(c, "y", t0, names, b, 1)
        vals = {"x": x, "y": y}
        before = copy_tree(vals)
        t = absorbed(t0)
        d = order(c, t, before["x"], before["y"], names)
        got = act(env[0], vals)
        c.check(got[0] == "ok", name + ": no error")
        if got[0] != "ok":
            return
        g = got[1]
        c.check(g["cmp"] == d, name + ": cmp is the order")
        for n, want in [("eq", d == 0), ("ne", d != 0), ("lt", d < 0), ("le", d <= 0), ("gt", d > 0), ("ge", d >= 0)]:
            c.check(c.same(g[n], want), name + ": " + n + " agrees with the order")
        got = act(env[1], vals)
        c.check(got[0] == "ok", name + ": max and min without error")
        if got[0] == "ok":
            mx, mn = got[1]
            c.check(c.or_(c.same(mx, before["x"]), c.same(mx, before["y"])), name + ": max is an operand")
            c.check(c.or_(c.same(mn, before["x"]), c.same(mn, before["y"])), name + ": min is an operand")
            c.check(c.and_(order(c, t, mx, before["x"], names) >= 0, order(c, t, mx, before["y"], names) >= 0), name + ": max is not below an operand")
            c.check(c.and_(order(c, t, mn, before["x"], names) <= 0, order(c, t, mn, before["y"], names) <= 0), name + ": min is not above an operand")
        c.check(c.same(vals, before), name + ": inputs unmodified")
    return Job("operators." + name, fn, setup, **kw)


def dedup(doc):
    return once_ns(doc, set())


def once_ns(t, seen):
    if isinstance(t, list):
        return [once_ns(x, seen) for x in t]
    if isinstance(t, dict):
        if t.get("type") in ("record", "enum", "fixed") and "name" in t:
            if full(t) in seen:
                return full(t)
            seen.add(full(t))
        return dict((k, once_ns(x, seen)) for k, x in t.items())
    return t


def sorting(name, t, b, n, **kw):
    """a.sort, a.max, a.min, a.argmax, a.argmin, map.argmax agree with the order"""
    names = defs(t, {})
    t0 = t

    def setup():
        doc = {"input": A(t), "output": A(t), "action": {"a.sort": ["input"]}}
        doc2 = {"input": A(t), "output": A("int"), "action": {"new": [{"a.argmax": ["input"]}, {"a.argmin": ["input"]}], "type": A("int")}}
        doc3 = {"input": A(t), "output": A(t), "action": {"new": [{"a.max": ["input"]}, {"a.min": ["input"]}], "type": A(t)}}
        return [make_engine(dedup(d)) for d in (doc, doc2, doc3)]

    def fn(c, env):
        k = c.choice("n", list(range(n + 1)))
        t = absorbed(t0)
        xs = [rgen(c, "x%d" % i, t0, names, b, 0) for i in range(k)]
        before = copy_tree(xs)
        got = act(env[0], xs)
        c.check(got[0] == "ok", name + ": sorts without error")
        if got[0] == "ok":
            s = got[1]
            c.check(len(s) == k, name + ": as many items")
            c.check(c.and_(True, *[order(c, t, s[i], s[i + 1], names) <= 0 for i in range(len(s) - 1)]), name + ": sorted in the order")
            for i in range(k):      # the same items, and stable: each item's position is determined by the order and its index
                r = sum([c.ite(order(c, t, before[j], before[i], names) < (1 if j < i else 0), 1, 0) for j in range(k) if j != i])
                for p in range(k):
                    c.check(c.or_(r != p, c.same(s[p], before[i])), name + ": a stable permutation of the input")
        if k:
            for e, what in ((env[1], "arg"), (env[2], "val")):
                g = act(e, xs)
                c.check(g[0] == "ok", name + ": extremes without error")
                if g[0] != "ok":
                    continue
                hi, lo = g[1]
                if what == "arg":
                    hi = pick(c, before, hi)
                    lo = pick(c, before, lo)
                c.check(c.and_(True, *[order(c, t, hi, z, names) >= 0 for z in before]), name + ": maximum is not below any item")
                c.check(c.and_(True, *[order(c, t, lo, z, names) <= 0 for z in before]), name + ": minimum is not above any item")
        c.check(c.same(xs, before), name + ": inputs unmodified")
    return Job("sorting." + name, fn, setup, **kw)


def pick(c, xs, i):
    for k in range(len(xs)):
        if i == k:
            return xs[k]
    c.check(False, "index in range")
    return xs[0]


def laws(name, t, b, **kw):
    """compare itself: antisymmetric, transitive, reflexive, over three values"""
    names = defs(t, {})

    def setup():
        return parse(t)

    def fn(c, T):
        from titus.datatype import compare
        x, y, z = [rgen(c, n, t, names, b, 0) for n in "xyz"]
        xy, yx = compare(T, x, y), compare(T, y, x)
        c.check(xy == -yx, name + ": antisymmetric")
        c.check(compare(T, x, x) == 0, name + ": reflexive")
        yz, xz = compare(T, y, z), compare(T, x, z)
        c.check(c.or_(xy > 0, yz > 0, xz <= 0), name + ": transitive")
        c.check(c.or_(xy != 0, yz != 0, xz == 0), name + ": equality is transitive")
        c.check(c.or_(xy != 0, xz == yz), name + ": equal values compare alike")
    return Job("laws." + name, fn, setup, **kw)


def mixed(name, ta, tb, num, **kw):
    """operands of different types that have a common type compare by the value they stand for"""
    na, nb = defs(ta, {}), defs(tb, {})

    def setup():
        out = {"type": "record", "name": "SxOut", "fields": [{"name": "cmp", "type": "int"}] + [{"name": n, "type": "boolean"} for n, o in OPS[1:]]}
        doc = {"input": {"type": "record", "name": "SxInput", "fields": [{"name": "x", "type": ta}, {"name": "y", "type": tb}]}, "output": out,
               "action": {"new": dict((n, {o: ["input.x", "input.y"]}) for n, o in OPS), "type": "SxOut"}}
        return make_engine(dedup(doc))

    def fn(c, env):
        b = B(arr=1, slen=1)
        x, y = rgen(c, "x", ta, na, b, 0), rgen(c, "y", tb, nb, b, 0)
        got = act(env, {"x": x, "y": y})
        c.check(got[0] == "ok", name + ": no error")
        if got[0] != "ok":
            return
        g = got[1]
        d = num(c, x, y)
        if d is None:
            # different alternatives of a union: some strict order, consistently
            c.check(g["cmp"] != 0, name + ": different kinds are not equal")
            d = g["cmp"]
        c.check(g["cmp"] == d, name + ": cmp")
        for n, want in [("eq", d == 0), ("ne", d != 0), ("lt", d < 0), ("le", d <= 0), ("gt", d > 0), ("ge", d >= 0)]:
            c.check(c.same(g[n], want), name + ": " + n)
    return Job("mixed." + name, fn, setup, **kw)


def jobs(tier):
    deep = tier == "thorough"
    for n, (t, b) in SCH.items():
        yield operators(n, t, b, limit=800 if deep else 300)
    SB = B(arr=2 if deep else 1, slen=2 if deep else 1)
    for n in ["boolean", "int", "double", "string", "enum", "record-deep", "union", "union-num", "union-array", "fixed", "long", "bytes", "array-int", "record", "record-nested", "tree"]:
        yield sorting(n, SCH[n][0], SCH[n][1] if n in ("double",) else SB, 3 if n in ("int", "boolean", "enum", "double") or deep else 2, limit=800 if deep else 300)
    for n in ["boolean", "int", "double", "string", "bytes", "fixed", "enum", "array-int", "record-deep", "union", "union-num", "record-nested", "union-named"]:
        yield laws(n, SCH[n][0], SCH[n][1] if n == "double" else SB, limit=800 if deep else 300)
    num = lambda c, x, y: sgn(c, x, y)

    def un(c, x, y):
        if x is None or y is None:
            return 0 if x is None and y is None else None
        if isinstance(x, dict):
            (k, x), = x.items()
        if isinstance(y, dict):
            (k, y), = y.items()
        if isinstance(x, str) != isinstance(y, str):
            return None
        if isinstance(x, str):
            return order(c, "string", x, y, {})
        return sgn(c, x, y)
    yield mixed("int-double", "int", "double", num)
    yield mixed("long-float", "long", "float", num)
    yield mixed("int-long", "int", "long", num)
    yield mixed("arrays", A("int"), A("double"), lambda c, x, y: lex(c, x, y, lambda p, q: sgn(c, p, q)))
    yield mixed("union-int", ["null", "int"], "int", un)
    yield mixed("union-double", ["null", "int"], "double", un)
    yield mixed("double-union", "double", ["int", "string"], un)
    yield mixed("union-union", ["null", "int"], ["null", "double"], un)
    yield mixed("union-string", ["string", "int"], ["null", "string"], un)
