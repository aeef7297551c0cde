"""C19 cluster and nearest-neighbour models (titus/lib/model/cluster.py, neighbor.py)."""
import math

from harness.lib import *

D, I, S = "double", "int", "string"
A = lambda t: {"type": "array", "items": t}
R = lambda n, **fs: {"type": "record", "name": n, "fields": [{"name": k, "type": t} for k, t in fs.items()]}
C = R("Cluster", center=A(D), id=I)
SC = R("Labeled", center=S, id=I)
INF = float("inf")

# an asymmetric metric: |x0 - 2 y0| with the roles of the arguments visible
SKEW = {"fcns": {"d": {"params": [{"x": A(D)}, {"y": A(D)}], "ret": D, "do": {"-": [{"*": [2, "y.0"]}, "x.0"]}}}}
# a metric between values of different types
MIXED = {"fcns": {"d": {"params": [{"x": I}, {"y": S}], "ret": D, "do": {"-": ["x", {"*": [2, {"s.len": "y"}]}]}}}}


def skew(x, y):
    return 2 * y[0] - x[0]


def squared(x, y):
    return sum([(a - b) * (a - b) for a, b in zip(x, y)], 0.0)


def order(ds):
    """indices by increasing distance, the earlier first among equals"""
    out = []
    for i, d in enumerate(ds):
        k = len(out)
        while k > 0 and d < ds[out[k - 1]]:
            k -= 1
        out.insert(k, i)
    return out


def closest(dist):
    def o(c, x, cs):
        if len(cs) == 0:
            raise Err(29000)
        return cs[order([dist(x, k["center"]) for k in cs])[0]]
    return o


def closestn(dist):
    def o(c, n, x, cs):
        if n < 0:
            raise Err(29010)
        return [cs[i] for i in order([dist(x, k["center"]) for k in cs])[:n]]
    return o


def nearest(dist, check):
    def o(c, k, x, ps):
        if k < 0:
            raise Err(30010)
        if check and any(len(p) != len(x) for p in ps):
            raise Err(30011)
        return [ps[i] for i in order([dist(x, p) for p in ps])[:k]]
    return o


def ball(dist, sq):
    def o(c, r, x, ps):
        return [p for p in ps if (r > 0 and dist(x, p) < r * r if sq else dist(x, p) < r)]
    return o


def vec(n):
    return lambda c, nm: [c.real("%s.%d" % (nm, i)) for i in range(n)]


def clusters(n, dim):
    def g(c, nm):
        k = c.choice(nm + ".len", list(range(n + 1)))
        return [{"center": [c.real("%s.%d.%d" % (nm, i, j)) for j in range(dim)], "id": i} for i in range(k)]
    return g


def points(n, dims):
    def g(c, nm):
        k = c.choice(nm + ".len", list(range(n + 1)))
        out = []
        for i in range(k):
            d = c.choice("%s.%d.dim" % (nm, i), dims)
            out.append([c.real("%s.%d.%d" % (nm, i, j)) for j in range(d)])
        return out
    return g


def small(lo, hi):
    return lambda c, nm: c.choice(nm, list(range(lo, hi + 1)) + [2 ** 31 - 1, -2 ** 31])


def edges(name, params, ret, expr, judge, gens, **kw):
    """values whose squares are not doubles"""
    big = [0.0, 1e200, -1e200, 1.7e308, -1.7e308, INF, 3.0]
    return F(name, params, ret, expr, judge, None, dict((k, g(big)) for k, g in gens.items()), **kw)


def seeds(n):
    """k distinct points of the data"""
    fc = {"fcns": {"new": {"params": [{"i": I}, {"vec": A(D)}], "ret": C, "do": {"type": "Cluster", "new": {"center": "vec", "id": "i"}}}}}

    def setup():
        return fn_engine({"x": A(A(D)), "k": I, "p": {"type": "array", "items": C}}, A("Cluster"),
                         {"model.cluster.randomSeeds": ["input.x", "input.k", {"fcn": "u.new"}]}, **fc)

    def fn(c, env):
        m = c.choice("len", list(range(n + 1)))
        xs = []
        for i in range(m):
            d = c.choice("dim%d" % i, [1, 2] if i == m - 1 else [1])
            xs.append([c.real("x%d.%d" % (i, j)) for j in range(d)])
        k = c.choice("k", list(range(-1, n + 2)))
        before = copy_tree(xs)
        env.e.rand = Rnd(c)
        distinct = []
        for x in xs:
            if not any(len(x) == len(y) and all(a == b for a, b in zip(x, y)) for y in distinct):
                distinct.append(x)
        got = act(env, {"x": xs, "k": k, "p": []})
        if k <= 0:
            return c.check(got == ("err", 29020), "randomSeeds: k must be positive")
        if len(distinct) < k:
            return c.check(got == ("err", 29021), "randomSeeds: not enough unique points")
        if len(set(len(x) for x in distinct)) > 1:
            return c.check(got == ("err", 29022), "randomSeeds: dimensions")
        c.check(got[0] == "ok", "randomSeeds: no error")
        out = got[1]
        c.check(len(out) == k, "randomSeeds: as many clusters as asked for")
        for i, r in enumerate(out):
            c.check(r["id"] == i, "randomSeeds: clusters are numbered in order")
            c.check(c.or_(*[c.same(r["center"], x) for x in before]), "randomSeeds: a cluster is at a point of the data")
            c.check(c.and_(True, *[c.not_(c.same(r["center"], out[j]["center"])) for j in range(i)]), "randomSeeds: the points are distinct")
        ways = 1
        for i in range(k):
            ways *= len(distinct) - i
        c.check(env.e.rand.total >= ways, "randomSeeds: every choice of points is possible")
        c.check(c.same(xs, before), "randomSeeds: data unmodified")
    return Job("randomSeeds", fn, setup, bound="up to %d points" % n)


def iteration(n, k, dim, metric):
    """every cluster with points nearest to it is updated with exactly those points, in order; the others stay"""
    upd = {"upd": {"params": [{"data": A(A(D))}, {"cluster": C}], "ret": "Cluster", "do": {"model.cluster.updateMean": ["data", "cluster", 0.5]}}}
    if metric == "skew":
        fc = {"fcns": dict(upd, **SKEW["fcns"])}
        m, dist = {"fcn": "u.d"}, skew
    else:
        fc = {"fcns": dict(upd, e={"params": [{"x": A(D)}, {"y": A(D)}], "ret": D, "do": {"metric.squaredEuclidean": [{"fcn": "metric.absDiff"}, "x", "y"]}})}
        m, dist = {"fcn": "u.e"}, squared

    def o(c, x, cs):
        if len(x) == 0:
            raise Err(29030)
        if len(cs) == 0:
            raise Err(29031)
        mine = [[] for _ in cs]
        for p in x:
            mine[order([dist(p, q["center"]) for q in cs])[0]].append(p)
        out = []
        for q, ps in zip(cs, mine):
            if not ps:
                out.append(q)
            else:
                out.append({"id": q["id"], "center": [(sum([p[j] for p in ps], 0.0) + 0.5 * q["center"][j]) / (len(ps) + 0.5) for j in range(dim)]})
        return out
    pts = lambda c, nm: [[c.real("%s.%d.%d" % (nm, i, j)) for j in range(dim)] for i in range(c.choice(nm + ".len", list(range(n + 1))))]
    return F("kmeansIteration %s %dd" % (metric, dim), {"x": A(A(D)), "cs": A(C)}, A(C), {"model.cluster.kmeansIteration": ["input.x", "input.cs", m, {"fcn": "u.upd"}]},
             o, None, {"x": pts, "cs": clusters(k, dim)}, extra=fc, limit=60, qms=4000, bound="up to %d points, %d clusters" % (n, k))


def update(n):
    def o(c, x, k, w):
        if len(x) == 0:
            raise Err(29040)
        if any(len(p) != len(x[0]) for p in x) or len(k["center"]) != len(x[0]):
            raise Err(29041)
        den = len(x) + w
        num = [sum([p[j] for p in x], 0.0) + w * k["center"][j] for j in range(len(x[0]))]
        if den == 0:
            return {"id": k["id"], "center": [float("nan") if v == 0 else (INF if v > 0 else -INF) for v in num]}
        return {"id": k["id"], "center": [v / den for v in num]}
    g = lambda c, nm: {"center": vec(c.choice("cdim", [0, 1, 2]))(c, nm), "id": c.int(nm + ".id")}
    return F("updateMean", {"x": A(A(D)), "k": C, "w": D}, C, {"model.cluster.updateMean": ["input.x", "input.k", "input.w"]}, o, None,
             {"x": points(n, [0, 1, 2]), "k": g, "w": lambda c, nm: c.real(nm)}, limit=60, bound="up to %d vectors" % n)


def mean(n, weighted):
    fc = {"fcns": {"w": {"params": [{"p": A(D)}], "ret": D, "do": {"-": [{"a.len": "p"}, {"if": {"==": ["p", {"type": A(D), "value": []}]}, "then": 0, "else": "p.0"}]}}}} if weighted else {}
    wt = (lambda p: len(p) - (p[0] if p else 0)) if weighted else (lambda p: 1)

    def o(c, x):
        if len(x) == 0:
            raise Err(30000)
        if any(len(p) != len(x[0]) for p in x):
            raise Err(30001)
        den = sum([wt(p) for p in x], 0.0)
        out = []
        for j in range(len(x[0])):
            v = sum([wt(p) * p[j] for p in x], 0.0)
            out.append(v / den if den != 0 else float("nan") if v == 0 else INF if v > 0 else -INF)
        return out
    return F("neighbor.mean" + (" weighted" if weighted else ""), {"x": A(A(D))}, A(D), {"model.neighbor.mean": ["input.x"] + ([{"fcn": "u.w"}] if weighted else [])}, o, None,
             {"x": points(n, [0, 1, 2])}, extra=fc, limit=60, qms=4000, bound="up to %d points of up to 2 dimensions" % n)


def ints(c, nm):  # (the metric stays within an int)
    return c.int(nm, -1000, 1000)


def words(n, fields):
    def g(c, nm):
        k = c.choice(nm + ".len", list(range(n + 1)))
        ws = [c.str("%s.%d" % (nm, i), 2) for i in range(k)]
        return [{"center": w, "id": i} for i, w in enumerate(ws)] if fields else ws
    return g


def mixed(x, y):
    return x - 2 * len(y)


def jobs(tier):
    deep = tier == "thorough"
    n = 4 if deep else 3
    out = []
    cl = "model.cluster."
    for dim in (1, 2, 3) if deep else (1, 2):
        m = n if dim == 1 else 2 if not deep else 3
        b = dict(bound="up to %d clusters of %d dimensions" % (m, dim), limit=60, qms=4000)
        gs = {"x": vec(dim), "cs": clusters(m, dim), "n": small(-1, m + 1)}
        out.append(F("closest %dd" % dim, {"x": A(D), "cs": A(C)}, C, {cl + "closest": ["input.x", "input.cs"]}, closest(squared), None, gs, **b))
        out.append(F("closestN %dd" % dim, {"n": I, "x": A(D), "cs": A(C)}, A(C), {cl + "closestN": ["input.n", "input.x", "input.cs"]}, closestn(squared), None, gs, **b))
        ps = {"k": small(-1, m + 1), "x": vec(dim), "ps": points(m, [dim])}
        nb = "model.neighbor."
        out.append(F("nearestK %dd" % dim, {"k": I, "x": A(D), "ps": A(A(D))}, A(A(D)), {nb + "nearestK": ["input.k", "input.x", "input.ps"]}, nearest(squared, True), None, ps, **b))
        out.append(F("ballR %dd" % dim, {"r": D, "x": A(D), "ps": A(A(D))}, A(A(D)), {nb + "ballR": ["input.r", "input.x", "input.ps"]}, ball(squared, True), None,
                     dict(ps, r=lambda c, nm: c.real(nm)), **b))
    b = dict(bound="up to %d clusters" % n, limit=60)
    gs = {"x": vec(1), "cs": clusters(n, 1), "n": small(-1, n + 1), "k": small(-1, n + 1), "ps": points(n, [1, 2]), "r": lambda c, nm: c.real(nm)}
    f = {"fcn": "u.d"}
    out.append(F("closest metric", {"x": A(D), "cs": A(C)}, C, {cl + "closest": ["input.x", "input.cs", f]}, closest(skew), None, gs, extra=SKEW, **b))
    out.append(F("closestN metric", {"n": I, "x": A(D), "cs": A(C)}, A(C), {cl + "closestN": ["input.n", "input.x", "input.cs", f]}, closestn(skew), None, gs, extra=SKEW, **b))
    out.append(F("nearestK metric", {"k": I, "x": A(D), "ps": A(A(D))}, A(A(D)), {nb + "nearestK": ["input.k", "input.x", "input.ps", f]}, nearest(skew, False), None, gs, extra=SKEW, **b))
    out.append(F("ballR metric", {"r": D, "x": A(D), "ps": A(A(D))}, A(A(D)), {nb + "ballR": ["input.r", "input.x", "input.ps", f]}, ball(skew, False), None, gs, extra=SKEW, **b))
    gm = {"x": ints, "cs": words(n, True), "n": small(-1, n + 1), "k": small(-1, n + 1), "ps": words(n, False), "r": lambda c, nm: c.real(nm)}
    out.append(F("closest words", {"x": I, "cs": A(SC)}, SC, {cl + "closest": ["input.x", "input.cs", f]}, closest(mixed), None, gm, extra=MIXED, **b))
    out.append(F("closestN words", {"n": I, "x": I, "cs": A(SC)}, A(SC), {cl + "closestN": ["input.n", "input.x", "input.cs", f]}, closestn(mixed), None, gm, extra=MIXED, **b))
    out.append(F("nearestK words", {"k": I, "x": I, "ps": A(S)}, A(S), {nb + "nearestK": ["input.k", "input.x", "input.ps", f]}, nearest(mixed, False), None, gm, extra=MIXED, **b))
    out.append(F("ballR words", {"r": D, "x": I, "ps": A(S)}, A(S), {nb + "ballR": ["input.r", "input.x", "input.ps", f]}, ball(mixed, False), None, gm, extra=MIXED, **b))
    out.append(F("nearestK dimensions", {"k": I, "x": A(D), "ps": A(A(D))}, A(A(D)), {nb + "nearestK": ["input.k", "input.x", "input.ps"]}, nearest(squared, True), None,
                 {"k": small(-1, 2), "x": lambda c, nm: vec(c.choice("xdim", [0, 1]))(c, nm), "ps": points(2, [0, 1, 2])}, limit=60, qms=4000, bound="up to 2 points of up to 2 dimensions"))
    # far apart: the differences' squares overflow
    one = lambda vs: (lambda c, nm: [c.choice(nm, vs)])
    two = lambda vs: (lambda c, nm: [{"center": [c.choice("%s%d" % (nm, i), vs)], "id": i} for i in range(2)])
    bare = lambda vs: (lambda c, nm: [[c.choice("%s%d" % (nm, i), vs)] for i in range(2)])
    sq = lambda x, y: (x[0] - y[0]) * (x[0] - y[0])
    nonan = lambda f: lambda c, *a: skipnan(c, f, *a)

    def skipnan(c, f, *a):
        x, ps = a[-2], a[-1]
        for p in ps:
            d = x[0] - (p["center"][0] if isinstance(p, dict) else p[0])
            c.assume(d == d)
        return f(c, *a)
    b = dict(bound="seven edge values")
    out.append(edges("closest far", {"x": A(D), "cs": A(C)}, C, {cl + "closest": ["input.x", "input.cs"]}, nonan(closest(sq)), {"x": one, "cs": two}, **b))
    k2 = lambda vs: (lambda c, nm: 2)
    out.append(edges("closestN far", {"n": I, "x": A(D), "cs": A(C)}, A(C), {cl + "closestN": ["input.n", "input.x", "input.cs"]}, nonan(closestn(sq)), {"n": k2, "x": one, "cs": two}, **b))
    out.append(edges("nearestK far", {"k": I, "x": A(D), "ps": A(A(D))}, A(A(D)), {nb + "nearestK": ["input.k", "input.x", "input.ps"]}, nonan(nearest(sq, True)), {"k": k2, "x": one, "ps": bare}, **b))
    out.append(edges("ballR far", {"r": D, "x": A(D), "ps": A(A(D))}, A(A(D)), {nb + "ballR": ["input.r", "input.x", "input.ps"]}, nonan(ball(sq, True)),
                     {"r": lambda vs: (lambda c, nm: c.choice(nm, [0.0, 5.0, 1e100])), "x": one, "ps": bare}, **b))
    out.append(seeds(4 if deep else 3))
    out.append(iteration(n, 2, 1, "skew"))
    out.append(iteration(2, 3 if deep else 2, 1, "squared"))
    if deep:
        out.append(iteration(2, 2, 2, "squared"))
    out.append(update(3))
    out.append(mean(3, False))
    out.append(mean(3 if deep else 2, True))
    return out
