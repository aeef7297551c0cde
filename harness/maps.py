"""Map library map.* (lib/map.py)."""
from harness.lib import *
from harness.arrays import has, take, midarr, mid, need
from harness.hof import fdef, lin, val, fold

M, AS, AI = {"type": "map", "values": "int"}, {"type": "array", "items": "string"}, {"type": "array", "items": "int"}
ML = {"type": "map", "values": "long"}
AM = {"type": "array", "items": M}


def mgen(keys, orders=True, lo=-1000000, hi=1000000):
    """A map over a subset of keys, inserted forwards or backwards."""
    def g(c, n):
        ks = [k for k in keys if c.choice(n + "?" + k, [False, True])]
        if orders and len(ks) > 1 and c.choice(n + ".order", [False, True]):
            ks = ks[::-1]
        return dict((k, c.int(n + "." + k, lo, hi)) for k in ks)
    return g


def permutation(c, got, want, label):
    c.observe(label, got)
    c.check(got[0] == want[0], label + ": outcome kind")
    if got[0] != "ok":
        c.check(got[1] == want[1], label + ": error code")
        return
    c.check(len(got[1]) == len(want[1]), label + ": same number of items")
    left = list(want[1])
    for x in got[1]:
        for i, y in enumerate(left):
            if c.same(x, y):
                left.pop(i)
                break
        else:
            c.fail(label + ": unexpected item")


def order(m, lt):
    """keys by value, ties alphabetically"""
    out = []
    for k in sorted(m):
        i = len(out)
        while i > 0 and lt(m[k], m[out[i - 1]]):
            i -= 1
        out.insert(i, k)
    return out


def up(x, y):
    return x < y


def down(x, y):
    return y < x


def J(name, expr, oracle, ret, params=None, keys="abc", gens=None, orders=True, **kw):
    ps = params or {"m": M}
    gg = dict((p, mgen(keys, orders)) for p in ps if ps[p] == M)
    gg.update(gens or {})
    return F(name, ps, ret, expr, oracle, gens=gg, **kw)


def keystr(c, n):
    return c.str(n, 1, "abcd")


def keyarr(c, n):
    return [c.str("%s.%d" % (n, i), 1, "abd", lens=[1]) for i in range(c.choice(n + ".len", [0, 1, 2]))]


def jobs(tier):
    I = lambda *xs: ["input." + x for x in xs]
    x1, kx = [("x", "int")], [("k", "string"), ("x", "int")]
    neg = {"<": ["x", 0]}
    abs_ = lambda lt: (lambda x, y: lt(abs(x), abs(y)))
    ltf = fdef([("x", "int"), ("y", "int")], "boolean", {"<": [{"m.abs": "x"}, {"m.abs": "y"}]})
    isb = {"==": ["k", {"string": "b"}]}
    yield J("map.len", {"map.len": I("m")}, lambda c, m: len(m), "int")
    yield J("map.keys", {"map.keys": I("m")}, lambda c, m: list(m), AS, cmp=permutation)
    yield J("map.values", {"map.values": I("m")}, lambda c, m: list(m.values()), AI, cmp=permutation)
    MK, gk = {"m": M, "k": "string"}, {"k": keystr}
    yield J("map.containsKey", {"map.containsKey": I("m", "k")}, lambda c, m, k: has(list(m), k), "boolean", params=MK, gens=gk)
    yield J("map.containsKey fcn", {"map.containsKey": ["input.m", fdef([("k", "string")], "boolean", isb)]}, lambda c, m: "b" in m, "boolean")
    yield J("map.containsValue", {"map.containsValue": I("m", "v")}, lambda c, m, v: has(m.values(), v), "boolean", params={"m": M, "v": "int"})
    yield J("map.containsValue fcn", {"map.containsValue": ["input.m", fdef(x1, "boolean", neg)]}, lambda c, m: any([v < 0 for v in m.values()]), "boolean")

    def add(c, m, k, v):
        out = {}
        hit = False
        for kk, vv in m.items():
            if kk == k:
                out[kk] = v
                hit = True
            else:
                out[kk] = vv
        if not hit:
            out[k] = v
        return out
    yield J("map.add", {"map.add": I("m", "k", "v")}, add, M, params={"m": M, "k": "string", "v": "int"}, gens=gk)
    yield J("map.remove", {"map.remove": I("m", "k")}, lambda c, m, k: dict((a, b) for a, b in m.items() if not a == k), M, params=MK, gens=gk)
    MKS = {"m": M, "ks": AS}
    yield J("map.only", {"map.only": I("m", "ks")}, lambda c, m, ks: dict((a, b) for a, b in m.items() if has(ks, a)), M, params=MKS, gens={"ks": keyarr}, keys="ab")
    yield J("map.except", {"map.except": I("m", "ks")}, lambda c, m, ks: dict((a, b) for a, b in m.items() if not has(ks, a)), M, params=MKS, gens={"ks": keyarr}, keys="ab")
    AB = {"a": M, "b": M}

    def over(c, a, b):
        out = dict(a)
        for k, v in b.items():
            out[k] = v
        return out
    yield J("map.update", {"map.update": I("a", "b")}, over, M, params=AB)
    yield J("map.split", {"map.split": I("m")}, lambda c, m: [{k: v} for k, v in m.items()], AM, cmp=permutation)
    yield J("map.join", {"map.join": I("a")}, lambda c, a: fold(lambda s, m: over(c, s, m), {}, a), M, params={"a": AM},
            gens={"a": lambda c, n: [mgen("ab")(c, n + str(i)) for i in range(c.choice(n + ".len", [0, 1, 2, 3]))]})
    for nm, base, lt in (("argmax", 26120, down), ("argmin", 26130, up)):
        yield J("map." + nm, {"map." + nm: I("m")}, lambda c, m, base=base, lt=lt: need(m, base) or order(m, lt)[0], "string", keys="abcd")
    for nm, base, lt in (("argmaxLT", 26140, down), ("argminLT", 26150, up)):
        yield J("map." + nm, {"map." + nm: ["input.m", ltf]}, lambda c, m, base=base, lt=lt: need(m, base) or order(m, abs_(lt))[0], "string")

    def argN(base, lt):
        def f(c, m, n):
            need(m, base)
            if n < 0:
                raise Err(base + 1)
            return take(order(m, lt), n)
        return f
    for nm, base, lt in (("argmaxN", 26160, down), ("argminN", 26170, up)):
        yield J("map." + nm, {"map." + nm: I("m", "n")}, argN(base, lt), AS, params={"m": M, "n": "int"})
    for nm, base, lt in (("argmaxNLT", 26180, down), ("argminNLT", 26190, up)):
        yield J("map." + nm, {"map." + nm: I("m", "n") + [ltf]}, argN(base, abs_(lt)), AS, params={"m": M, "n": "int"})
    # sets as maps
    yield J("map.union", {"map.union": I("a", "b")}, over, M, params=AB)
    yield J("map.intersection", {"map.intersection": I("a", "b")}, lambda c, a, b: dict((k, v) for k, v in a.items() if k in b), M, params=AB)
    yield J("map.diff", {"map.diff": I("a", "b")}, lambda c, a, b: dict((k, v) for k, v in a.items() if k not in b), M, params=AB)
    yield J("map.symdiff", {"map.symdiff": I("a", "b")}, lambda c, a, b: dict((k, v) for k, v in list(a.items()) + list(b.items()) if (k in a) != (k in b)), M, params=AB)
    yield J("map.subset", {"map.subset": I("a", "b")}, lambda c, a, b: all(k in b for k in a), "boolean", params=AB)
    yield J("map.disjoint", {"map.disjoint": I("a", "b")}, lambda c, a, b: not any(k in b for k in a), "boolean", params=AB)
    # toset/fromset/in: a set of distinct items survives the round trip
    for t, pool in (("int", [0, 1, -1, 64, 2147483647]), ("string", ["", "a", "aa", "\u00e9", "int"]), ("double", [0.0, 1.5, -1.0]), ("boolean", [True, False]),
                    ({"type": "array", "items": "int"}, [[], [1], [1, 2], [2, 1]])):
        at = {"type": "array", "items": t}
        nm = t if isinstance(t, str) else "array"
        pg = lambda c, n, pool=pool: [c.choice("%s.%d" % (n, i), pool) for i in range(c.choice(n + ".len", [0, 1, 2, 3]))]
        pool_bound = "set items are drawn from a fixed pool of values per type"

        def uniq(a):
            out = []
            for x in a:
                if x not in out:
                    out.append(x)
            return out
        yield J("fromset(toset) " + nm, {"map.fromset": [{"map.toset": I("a")}]}, lambda c, a: uniq(a), at, params={"a": at}, gens={"a": pg}, cmp=permutation, bound=pool_bound)
        yield J("in(toset) " + nm, {"map.in": [{"map.toset": I("a")}, "input.x"]}, lambda c, a, x: x in a, "boolean", params={"a": at, "x": t},
                gens={"a": pg, "x": lambda c, n, pool=pool: c.choice(n, pool)}, bound=pool_bound)
        yield J("fromset(add toset) " + nm, {"map.fromset": [{"map.add": [{"map.toset": I("a")}, "input.x"]}]}, lambda c, a, x: uniq(a + [x]), at, params={"a": at, "x": t},
                gens={"a": pg, "x": lambda c, n, pool=pool: c.choice(n, pool)}, cmp=permutation, bound=pool_bound)
    # functional
    yield J("map.map", {"map.map": ["input.m", fdef(x1, "int", {"+": [{"*": ["x", 3]}, 1]})]}, lambda c, m: dict((k, 3 * v + 1) for k, v in m.items()), M)
    yield J("map.mapWithKey", {"map.mapWithKey": ["input.m", fdef(kx, "int", {"if": isb, "then": {"u-": "x"}, "else": "x"})]}, lambda c, m: dict((k, -v if k == "b" else v) for k, v in m.items()), M)
    yield J("map.filter", {"map.filter": ["input.m", fdef(x1, "boolean", neg)]}, lambda c, m: dict((k, v) for k, v in m.items() if v < 0), M)
    yield J("map.filterWithKey", {"map.filterWithKey": ["input.m", fdef(kx, "boolean", {"||": [isb, neg]})]}, lambda c, m: dict((k, v) for k, v in m.items() if k == "b" or v < 0), M)
    OPT = ["int", "null"]
    yield J("map.filterMap", {"map.filterMap": ["input.m", fdef(x1, OPT, {"if": neg, "then": {"-": ["x", 1]}, "else": None})]}, lambda c, m: dict((k, v - 1) for k, v in m.items() if v < 0), M)
    yield J("map.filterMapWithKey", {"map.filterMapWithKey": ["input.m", fdef(kx, OPT, {"if": {"||": [isb, neg]}, "then": {"-": ["x", 1]}, "else": None})]},
            lambda c, m: dict((k, v - 1) for k, v in m.items() if k == "b" or v < 0), M)

    def flat(c, m):
        out = {}
        for k, v in m.items():
            if v < 0:
                out["n"] = v
            else:
                out["p"] = v
                out["q"] = v + 1
        return out
    fm = {"if": neg, "then": {"new": {"n": "x"}, "type": M}, "else": {"new": {"p": "x", "q": {"+": ["x", 1]}}, "type": M}}
    yield J("map.flatMap", {"map.flatMap": ["input.m", fdef(x1, M, fm)]}, flat, M, orders=False)

    def flatk(c, m):
        out = {}
        for k, v in m.items():
            if v < 0:
                out[k + "n"] = v
            else:
                out[k] = v
                out[k + k] = v + 1
        return out
    fk = {"if": neg, "then": {"map.add": [{"type": M, "value": {}}, {"s.concat": ["k", {"string": "n"}]}, "x"]},
          "else": {"map.add": [{"map.add": [{"type": M, "value": {}}, "k", "x"]}, {"s.concat": ["k", "k"]}, {"+": ["x", 1]}]}}
    yield J("map.flatMapWithKey", {"map.flatMapWithKey": ["input.m", fdef(kx, M, fk)]}, flatk, M)

    def zipped(n, key):
        ps = dict((p, M) for p in "abcd"[:n])
        nm = "map.zipmapWithKey" if key else "map.zipmap"
        names = [(p, "int") for p in "wxyz"[:n]]
        body = lin(3, *[q for q, _ in names])
        if key:
            body = {"if": isb, "then": {"+": [body, 100000007]}, "else": body}

        def f(c, *ms):
            if any(set(q) != set(ms[0]) for q in ms):
                raise Err(26380 if key else 26370)
            return dict((k, val(3, *[q[k] for q in ms]) + (100000007 if key and k == "b" else 0)) for k in ms[0])
        return J("%s %d" % (nm, n), {nm: ["input." + p for p in ps] + [fdef(([("k", "string")] if key else []) + names, "int", body)]}, f, M, params=ps, keys="ab")
    for n in (2, 3, 4):
        yield zipped(n, False)
        yield zipped(n, True)
    lt = {"<": ["x", "y"]}
    xy = [("x", "int"), ("y", "int")]
    yield J("map.corresponds", {"map.corresponds": I("a", "b") + [fdef(xy, "boolean", lt)]}, lambda c, a, b: set(a) == set(b) and all([a[k] < b[k] for k in a]), "boolean", params=AB)
    yield J("map.correspondsWithKey", {"map.correspondsWithKey": I("a", "b") + [fdef([("k", "string")] + xy, "boolean", {"||": [isb, lt]})]},
            lambda c, a, b: set(a) == set(b) and all([k == "b" or a[k] < b[k] for k in a]), "boolean", params=AB)
