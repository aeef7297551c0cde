"""C21 interpolation, metrics, kernels, links and missing value handling (titus/lib/interp.py, metric.py, kernel.py, link.py, impute.py)."""
import math

from harness.lib import *

D, I = "double", "int"
A = lambda t: {"type": "array", "items": t}
M = lambda t: {"type": "map", "values": t}
INF = float("inf")


def xp(v):
    try:
        return math.exp(v)
    except OverflowError:
        return INF


def isnan(x):
    return x != x


def isinf(x):
    return x == INF or x == -INF


def vec(n, special=False, least=0):
    def g(c, nm):
        k = c.choice(nm + ".len", list(range(least, n + 1)))
        s = c.choice(nm + ".special", list(range(k + 1))) if special and k else 0
        return [c.double("%s.%d" % (nm, i)) if i + 1 == s else c.real("%s.%d" % (nm, i)) for i in range(k)]
    return g


def anyd(c, nm):
    return c.double(nm)


def fin(c, nm):
    return c.real(nm)


# ---------------------------------------------------------------- interpolation

def bin3(c, x, n, low, high):
    if isnan(low) or isnan(high) or isinf(low) or isinf(high) or low >= high:
        raise Err(22000)
    if n < 1:
        raise Err(22001)
    if isnan(x) or x < low or x >= high:
        raise Err(22002)
    # the bin whose interval contains x
    for k in range(6):
        if k < n and (x - low) * n < (k + 1) * (high - low):
            return k
    c.assume(False)


def bin2(c, x, origin, width):
    if isnan(origin) or isinf(origin):
        raise Err(22000)
    if isnan(width) or width <= 0:
        raise Err(22001)
    if isnan(x) or isinf(x):
        raise Err(22002)
    if isinf(width):
        c.assume(False)
    k = math.floor((x - origin) / width)
    if k < -2 ** 31 or k >= 2 ** 31:
        raise Err(22002)
    return k


def bin_fp():
    """binary floating point: every x of the half-open range has a bin"""
    ranges = [(0.0, 1.0), (-1.0, 1.0), (0.1, 0.7), (-3.0, 4.5), (-1.0, 1e-20), (1e15, 1e15 + 3)]
    steps = [0, 1, 2]

    def setup():
        return fn_engine({"x": D, "n": I, "low": D, "high": D}, I, {"interp.bin": ["input.x", "input.n", "input.low", "input.high"]})

    def fn(c, env):
        low, high = c.choice("range", ranges)
        n = c.choice("bins", [1, 2, 3, 7])
        x = c.choice("x", [low, "below high", "below", (low + high) / 2])
        if x == "below high":
            x = pred(high)
        elif x == "below":
            x = pred(pred(high))
        c.assume(low <= x < high)
        got = act(env, {"x": x, "n": n, "low": low, "high": high})
        c.check(got[0] == "ok" and 0 <= got[1] < n, "bin edges: every value of the range has a bin, got %r" % (got,))
        if x == low:
            c.check(got == ("ok", 0), "bin edges: the lower end is in bin 0")
        if x >= pred(pred(high)) and high - low > 1e-3:
            c.check(got == ("ok", n - 1), "bin edges: the upper end is in the last bin")
    return Job("bin edges", fn, setup, bound="six ranges, values at and next to their ends, 1, 2, 3, 7 bins")


def pred(x):
    import struct
    if x == 0:
        return -5e-324
    n, = struct.unpack("<q", struct.pack("<d", x))
    return struct.unpack("<d", struct.pack("<q", n - 1 if x > 0 else n + 1))[0]


def rec(x, to):
    return A({"type": "record", "name": "R", "fields": [{"name": "x", "type": x}, {"name": "to", "type": to}]})


def table(n, xg, tog):
    def g(c, nm):
        k = c.choice(nm + ".len", list(range(n + 1)))
        return [{"x": xg(c, "%s.%d.x" % (nm, i)), "to": tog(c, "%s.%d.to" % (nm, i))} for i in range(k)]
    return g


def nearest(dist):
    def o(c, x, t):
        if len(t) == 0:
            raise Err(22010)
        best = None
        for row in t:
            d = dist(c, x, row["x"])
            if best is None or d < best[0]:
                best = (d, row["to"])
        return best[1]
    return o


def dist2(c, x, y):
    if len(x) != len(y):
        raise Err(22011)
    return sum([(p - q) * (p - q) for p, q in zip(x, y)], 0.0)


def ends(x, t, code):
    """The two rows to interpolate between, and whether x lies between them."""
    below = above = None
    for r in t:
        if r["x"] <= x and (below is None or r["x"] > below["x"]):
            below = r
        if r["x"] > x and (above is None or r["x"] < above["x"]):
            above = r
    if below is not None and above is not None:
        return below, above, True
    side = above is None
    one = two = None
    for r in t:
        if one is None or (r["x"] > one["x"] if side else r["x"] < one["x"]):
            one = r
    for r in t:
        if r["x"] != one["x"] and (two is None or (r["x"] > two["x"] if side else r["x"] < two["x"])):
            two = r
    if two is None:
        raise Err(code)
    return one, two, False


def blend(x, one, two, code):
    u = (x - one["x"]) / (two["x"] - one["x"])
    p, q = one["to"], two["to"]
    if isinstance(p, list):
        if len(p) != len(q):
            raise Err(code)
        return [a + u * (b - a) for a, b in zip(p, q)]
    return p + u * (q - p)


def distinct(c, t):
    """rows with the same x agree on the value, so that the choice among them does not matter"""
    for i in range(len(t)):
        for j in range(i):
            c.assume(c.or_(t[i]["x"] != t[j]["x"], c.same(t[i]["to"], t[j]["to"])))


def linear(kind, base):
    def o(c, x, t):
        distinct(c, t)
        one, two, between = ends(x, t, base)
        if kind == "flat" and not between:
            return one["to"]
        if kind == "missing" and not between and one["x"] != x:
            return None
        return blend(x, one, two, base + 1)
    return o


def untag(x):
    return list(x.values())[0] if isinstance(x, dict) else x


def agree_untagged(c, got, want, name):
    agree(c, (got[0], untag(got[1])) if got[0] == "ok" else got, want, name)


# ---------------------------------------------------------------- metrics

def missing(step, final, mink=None):
    def o(c, x, y, *rest):
        p = rest[0] if mink else None
        rest = rest[1:] if mink else rest
        w = rest[0] if rest else [1.0] * len(x)
        if len(x) != len(y) or len(w) != len(x):
            raise Err(mink if mink else o.code)
        if mink and (isnan(p) or p <= 0):
            raise Err(mink + 1)
        tally = total = here = 0.0
        for a, b, k in zip(x, y, w):
            total = total + k
            if a is not None and b is not None:
                here = here + k
                d = abs(untag(a) - untag(b))
                tally = step(tally, d, p) if mink else step(tally, d)
        if here == 0.0:
            return float("nan")
        v = tally * total / here
        return final(v, p) if mink else final(v)
    return o


def larger(a, b):
    return a if a >= b else b


def root(c_or_x):
    return float("nan") if c_or_x < 0 else math.sqrt(c_or_x)


def power(x, p):
    """x >= 0 to the p (1, 2 or 0.5)"""
    return x if p == 1 else (x * x if p == 2 else math.sqrt(x))


def mstep(t, d, p):
    return larger(t, d) if isinf(p) else t + power(d, p)


def mfinal(v, p):
    if isinf(p):
        return v
    if v < 0:
        return float("nan") if p == 2 else (v if p == 1 else v * v)
    return v if p == 1 else (math.sqrt(v) if p == 2 else v * v)


def pairs(x, y, code):
    if len(x) != len(y):
        raise Err(code)
    n = {(False, False): 0, (False, True): 0, (True, False): 0, (True, True): 0}
    for a, b in zip(x, y):
        n[(True if a else False, True if b else False)] += 1
    return n[(False, False)], n[(False, True)], n[(True, False)], n[(True, True)]


def ratio(p, q):
    if q == 0:
        return float("nan") if p == 0 else (INF if p > 0 else -INF)
    return p / q


def matching(c, x, y):
    a, b, d, e = pairs(x, y, 28080)
    return ratio(a + e, float(a + b + d + e))


def jaccard(c, x, y):
    a, b, d, e = pairs(x, y, 28090)
    return ratio(e, float(b + d + e))


def tanimoto(c, x, y):
    a, b, d, e = pairs(x, y, 28100)
    return ratio(a + e, float(a + 2 * (b + d) + e))


def binsim(c, x, y, c00, c01, c10, c11, d00, d01, d10, d11):
    a, b, d, e = pairs(x, y, 28110)
    return ratio(c00 * a + c01 * b + c10 * d + c11 * e, d00 * a + d01 * b + d10 * d + d11 * e)


# ---------------------------------------------------------------- kernels and links

def inner(x, y, code):
    if len(x) != len(y):
        raise Err(code)
    return sum([a * b for a, b in zip(x, y)], 0.0)


def rbf(c, x, y, g):
    if len(x) != len(y):
        raise Err(23010)
    return xp(-(g * sum([(a - b) * (a - b) for a, b in zip(x, y)], 0.0)))


def poly(c, x, y, g, k, d):
    v = g * inner(x, y, 23020) + k
    out = 1.0
    for _ in range(int(d)):
        out = out * v
    return out


def each(f):
    def o(c, x):
        if isinstance(x, dict):
            return dict((k, f(v)) for k, v in x.items())
        if isinstance(x, list):
            return [f(v) for v in x]
        return f(x)
    return o


def softplus(y):
    return y if isinf(xp(y)) else math.log(1 + xp(y))


LINKS = {"logit": lambda y: 1 / (1 + xp(-y)), "probit": lambda y: (math.erf(y / math.sqrt(2.0)) + 1) / 2, "cloglog": lambda y: 1 - xp(-xp(y)),
         "loglog": lambda y: xp(-xp(y)), "cauchit": lambda y: 0.5 + (1.0 / math.pi) * math.atan(y), "softplus": softplus,
         "relu": lambda y: y if isnan(y) else (y if y > 0 else 0.0), "tanh": lambda y: math.tanh(y)}


def softmax(form):
    t = A(D) if form == "array" else M(D)

    def setup():
        return fn_engine({"x": t}, t, {"m.link.softmax": ["input.x"]})

    def fn(c, env):
        if form == "array":
            x = vec(3)(c, "x")
            vals = x
        else:
            x = dict((k, c.real("x." + k)) for k in "abc" if c.choice("has" + k, [False, True]))
            vals = [x[k] for k in sorted(x)]
        before = copy_tree(x)
        got = act(env, {"x": x})
        if len(vals) == 0:
            return c.check(got == ("err", 25000), "softmax: empty input")
        c.check(got[0] == "ok", "softmax: no error")
        if form == "map":
            c.check(set(got[1]) == set(x), "softmax: keys")
            r = [got[1][k] for k in sorted(x)]
        else:
            r = got[1]
        c.check(len(r) == len(vals), "softmax: length")
        total = sum(r, 0.0)
        c.check(c.eq(total, 1.0, 1e-9), "softmax: sums to one")
        for p in r:
            c.check(c.and_(p >= 0, p <= 1), "softmax: in [0, 1]")
        hi = vals[0]
        for v in vals:
            hi = v if v > hi else hi
        es = [xp(v - hi) for v in vals]
        k = sum(es, 0.0)
        c.check(c.and_(*[c.eq(p * k, e, 1e-9) for p, e in zip(r, es)]), "softmax: proportional to the exponentials")
        c.check(c.same(x, before), "softmax: input unmodified")
    return Job("softmax " + form, fn, setup, bound="up to 3 values" if form == "array" else "up to 3 keys")


# ---------------------------------------------------------------- extreme magnitudes: only documented errors, never a Python exception

HUGE = [1e200, -1e200, 1.7e308, -1.7e308, 800.0, -800.0, 0.0, 1.0, 5e-324, float("nan"), INF, -INF]


def edges(name, params, ret, expr, codes=(), judge=None):
    """all combinations of extreme doubles (as scalars, or as the elements of one- and two-element arrays)"""
    def setup():
        return fn_engine(params, ret, expr)

    def fn(c, env):
        vals = {}
        for n, t in params.items():
            if t == D:
                vals[n] = c.choice(n, HUGE)
            elif t == I:
                vals[n] = c.choice(n, [1, 3])
            elif t == A(D):
                vals[n] = [c.choice(n + "0", HUGE), 1.0]
            elif t == M(D):
                vals[n] = {"a": c.choice(n + "0", HUGE), "b": 2.0}
            else:
                vals[n] = [{"x": -1.0, "to": 0.0}, {"x": c.choice(n, HUGE), "to": c.choice(n + "to", [1.0, 1.7e308])}]
        got = act(env, vals)
        if got[0] == "err":
            return c.check(got[1] in codes, name + " extremes: only documented errors, got %r" % (got[1],))
        c.check(conforms(c, ret, untag(got[1]) if isinstance(ret, list) else got[1]) if not isinstance(ret, list) else True, name + " extremes: a value of the declared type")
        if judge:
            judge(c, got[1], **vals)
    return Job(name + " extremes", fn, setup, bound="twelve extreme doubles per argument")


def limits(f):
    lim = {"logit": (0.0, 1.0), "probit": (0.0, 1.0), "cloglog": (0.0, 1.0), "loglog": (1.0, 0.0), "cauchit": (0.0, 1.0), "softplus": (0.0, None), "relu": (0.0, None), "tanh": (-1.0, 1.0)}[f]

    def judge(c, r, x):
        if x != x:
            return c.check(r != r, f + " extremes: nan")
        if abs(x) < 700:
            return
        want = lim[1] if x > 0 else lim[0]
        want = x if want is None else want
        c.check(r == want or abs(r - want) < 1e-2, f + " extremes: limit value, got %r for %r" % (r, x))
    return judge


def soft_limits(c, r, x):
    vals = x if isinstance(x, list) else [x[k] for k in sorted(x)]
    out = r if isinstance(r, list) else [r[k] for k in sorted(r)]
    if all(v == v and abs(v) != INF for v in vals):
        c.check(abs(sum(out) - 1) < 1e-9, "softmax extremes: sums to one, got %r for %r" % (r, x))


def jobs(tier):
    deep = tier == "thorough"
    n = 4 if deep else 3
    out = []
    out.append(F("bin range", {"x": D, "n": I, "low": D, "high": D}, I, {"interp.bin": ["input.x", "input.n", "input.low", "input.high"]}, bin3,
                 gens={"x": anyd, "low": anyd, "high": anyd, "n": lambda c, s: c.int(s, -2, 5)}, bound="up to 5 bins"))
    out.append(F("bin width", {"x": D, "o": D, "w": D}, I, {"interp.bin": ["input.x", "input.o", "input.w"]}, bin2, gens={"x": anyd, "o": anyd, "w": anyd}, check_type=False))
    out.append(bin_fp())
    out.append(edges("bin range", {"x": D, "n": I, "low": D, "high": D}, I, {"interp.bin": ["input.x", "input.n", "input.low", "input.high"]}, (22000, 22001, 22002)))
    out.append(edges("bin width", {"x": D, "o": D, "w": D}, I, {"interp.bin": ["input.x", "input.o", "input.w"]}, (22000, 22001, 22002)))
    e = {"interp.nearest": ["input.x", "input.t"]}
    out.append(F("nearest", {"x": D, "t": rec(D, "string")}, "string", e, nearest(lambda c, p, q: abs(p - q)), gens={"t": table(n, fin, lambda c, s: s)}))
    out.append(F("nearest vector", {"x": A(D), "t": rec(A(D), I)}, I, e, nearest(dist2), gens={"x": vec(2), "t": table(2, vec(2), lambda c, s: c.int(s))}, limit=60))
    metric = {"fcns": {"d": {"params": [{"p": "int"}, {"q": D}], "ret": D, "do": {"-": ["q", "p"]}}}}
    out.append(F("nearest metric", {"x": I, "t": rec(D, I)}, I, {"interp.nearest": ["input.x", "input.t", {"fcn": "u.d"}]}, nearest(lambda c, p, q: q - p), gens={"t": table(n, fin, lambda c, s: c.int(s))}, extra=metric))
    for f, kind, base, opt in [("linear", "", 22020, False), ("linearFlat", "flat", 22030, False), ("linearMissing", "missing", 22040, True)]:
        e = {"interp." + f: ["input.x", "input.t"]}
        out.append(F(f, {"x": D, "t": rec(D, D)}, ["null", D] if opt else D, e, linear(kind, base), gens={"x": fin, "t": table(n, fin, fin)}, check_type=not opt, cmp=agree_untagged if opt else None, limit=60))
        out.append(F(f + " vector", {"x": D, "t": rec(D, A(D))}, ["null", A(D)] if opt else A(D), e, linear(kind, base), gens={"x": fin, "t": table(2 if not deep else 3, fin, vec(2))}, check_type=not opt,
                     cmp=agree_untagged if opt else None, limit=60))
        out.append(edges(f, {"x": D, "t": rec(D, D)}, ["null", D] if opt else D, e, (base,)))
    # metrics
    for f, code, step, final in [("euclidean", 28030, lambda t, d: t + d * d, root), ("squaredEuclidean", 28040, lambda t, d: t + d * d, lambda v: v),
                                 ("chebyshev", 28050, larger, lambda v: v), ("taxicab", 28060, lambda t, d: t + d, lambda v: v)]:
        for weighted in (False, True):
            o = missing(step, final)
            o.code = code
            params = {"x": A(["null", D]), "y": A(["null", D])}
            args = [{"fcn": "metric.absDiff"}, "input.x", "input.y"]
            if weighted:
                params["w"] = A(D)
                args.append("input.w")
            out.append(F(f + (" weighted" if weighted else ""), params, D, {"metric." + f: args}, o, b=B(arr=2), gens={"w": vec(2)} if weighted else None, limit=60))
        o = missing(step, final)
        o.code = code
        out.append(F(f + " plain", {"x": A(D), "y": A(D)}, D, {"metric." + f: [{"fcn": "metric.absDiff"}, "input.x", "input.y"]}, o, b=B(arr=3), limit=60))
        out.append(edges(f, {"x": A(D), "y": A(D), "w": A(D)}, D, {"metric." + f: [{"fcn": "metric.absDiff"}, "input.x", "input.y", "input.w"]}, (code,)))
    ps = lambda c, s: c.choice(s, [1.0, 2.0, 0.5, INF, float("nan"), 0.0, -1.0])
    mk = ["input.x", "input.y", "input.p"]
    out.append(F("minkowski", {"x": A(["null", D]), "y": A(["null", D]), "p": D}, D, {"metric.minkowski": [{"fcn": "metric.absDiff"}] + mk}, missing(mstep, mfinal, 28070), b=B(arr=2), gens={"p": ps}, limit=60,
                 bound="p in {1, 2, 1/2, inf, nan, 0, -1}"))
    out.append(F("minkowski weighted", {"x": A(["null", D]), "y": A(["null", D]), "p": D, "w": A(D)}, D, {"metric.minkowski": [{"fcn": "metric.absDiff"}] + mk + ["input.w"]}, missing(mstep, mfinal, 28070),
                 b=B(arr=1 if not deep else 2), gens={"p": ps}, limit=60))
    out.append(edges("minkowski", {"x": A(D), "y": A(D), "p": D}, D, {"metric.minkowski": [{"fcn": "metric.absDiff"}] + mk}, (28070, 28071)))

    def simple(c, x, y):
        if len(x) != len(y):
            raise Err(28000)
        return math.sqrt(sum([(a - b) * (a - b) for a, b in zip(x, y)], 0.0))
    out.append(F("simpleEuclidean", {"x": A(D), "y": A(D)}, D, {"metric.simpleEuclidean": ["input.x", "input.y"]}, simple, b=B(arr=n)))
    out.append(edges("simpleEuclidean", {"x": A(D), "y": A(D)}, D, {"metric.simpleEuclidean": ["input.x", "input.y"]}, (28000,)))
    out.append(F("absDiff", {"x": D, "y": D}, D, {"metric.absDiff": ["input.x", "input.y"]}, lambda c, x, y: x - y if x >= y else y - x))
    out.append(F("gaussianSimilarity", {"x": D, "y": D, "s": D}, D, {"metric.gaussianSimilarity": ["input.x", "input.y", "input.s"]},
                 lambda c, x, y, s: xp(ratio(-(math.log(2) * ((x - y) * (x - y))), s * s)), pre=lambda c, x, y, s: c.assume(s != 0)))
    out.append(edges("gaussianSimilarity", {"x": D, "y": D, "s": D}, D, {"metric.gaussianSimilarity": ["input.x", "input.y", "input.s"]}))
    bl = {"x": A("boolean"), "y": A("boolean")}
    for f, o in [("simpleMatching", matching), ("jaccard", jaccard), ("tanimoto", tanimoto)]:
        out.append(F(f, bl, D, {"metric." + f: ["input.x", "input.y"]}, o, b=B(arr=4 if deep else 3)))
    co = ["c00", "c01", "c10", "c11", "d00", "d01", "d10", "d11"]
    out.append(F("binarySimilarity", dict(bl, **dict((k, D) for k in co)), D, {"metric.binarySimilarity": ["input.x", "input.y"] + ["input." + k for k in co]}, binsim, b=B(arr=3 if deep else 2), limit=60))
    # kernels
    kx = {"x": A(D), "y": A(D)}
    two = {"x": vec(3), "y": vec(3)}
    out.append(F("kernel linear", kx, D, {"m.kernel.linear": ["input.x", "input.y"]}, lambda c, x, y: inner(x, y, 23000), gens=two))
    out.append(F("kernel rbf", dict(kx, g=D), D, {"m.kernel.rbf": ["input.x", "input.y", "input.g"]}, rbf, gens=two))
    out.append(F("kernel poly", dict(kx, g=D, k=D, d=D), D, {"m.kernel.poly": ["input.x", "input.y", "input.g", "input.k", "input.d"]}, poly,
                 gens=dict(two, d=lambda c, s: c.choice(s, [0.0, 1.0, 2.0, 3.0])), bound="degrees 0 to 3"))
    out.append(F("kernel sigmoid", dict(kx, g=D, k=D), D, {"m.kernel.sigmoid": ["input.x", "input.y", "input.g", "input.k"]}, lambda c, x, y, g, k: math.tanh(g * inner(x, y, 23030) + k), gens=two))
    out.append(edges("kernel rbf", dict(kx, g=D), D, {"m.kernel.rbf": ["input.x", "input.y", "input.g"]}, (23010,)))
    out.append(edges("kernel poly", dict(kx, g=D, k=D), D, {"m.kernel.poly": ["input.x", "input.y", "input.g", "input.k", 3]}, (23020,)))
    # links
    for f in sorted(LINKS):
        e = {"m.link." + f: ["input.x"]}
        out.append(F("link " + f, {"x": D}, D, e, each(LINKS[f])))
        out.append(F("link %s array" % f, {"x": A(D)}, A(D), e, each(LINKS[f]), b=B(arr=3)))
        out.append(F("link %s map" % f, {"x": M(D)}, M(D), e, each(LINKS[f]), b=B(keys="ab")))
        out.append(edges("link " + f, {"x": D}, D, e, (), limits(f)))
    for form in ("array", "map"):
        out.append(softmax(form))
        t = A(D) if form == "array" else M(D)
        out.append(edges("softmax " + form, {"x": t}, t, {"m.link.softmax": ["input.x"]}, (), soft_limits))
    # missing and non-numeric values
    for t in [I, "string", A(I), M(I)]:
        nm = t if isinstance(t, str) else t["type"]

        def need(c, x):
            if x is None:
                raise Err(21000)
            return untag(x)
        out.append(F("errorOnNull " + nm, {"x": [t, "null"]}, t, {"impute.errorOnNull": ["input.x"]}, need, b=B(arr=2, keys="ab", slen=1)))
        out.append(F("defaultOnNull " + nm, {"x": [t, "null"], "d": t}, t, {"impute.defaultOnNull": ["input.x", "input.d"]}, lambda c, x, d: d if x is None else untag(x), b=B(arr=1, keys="a", slen=1)))
    def num(c, x):
        if isnan(x):
            raise Err(21050)
        if x == INF:
            raise Err(21051)
        if x == -INF:
            raise Err(21052)
        return x
    g = {"x": anyd}
    out.append(F("isnan", {"x": D}, "boolean", {"impute.isnan": ["input.x"]}, lambda c, x: isnan(x), gens=g))
    out.append(F("isinf", {"x": D}, "boolean", {"impute.isinf": ["input.x"]}, lambda c, x: isinf(x), gens=g))
    out.append(F("isnum", {"x": D}, "boolean", {"impute.isnum": ["input.x"]}, lambda c, x: not isnan(x) and not isinf(x), gens=g))
    out.append(F("errorOnNonNum", {"x": D}, D, {"impute.errorOnNonNum": ["input.x"]}, num, gens=g))
    out.append(F("defaultOnNonNum", {"x": D, "d": D}, D, {"impute.defaultOnNonNum": ["input.x", "input.d"]}, lambda c, x, d: d if isnan(x) or isinf(x) else x, gens=dict(g, d=anyd)))
    return out
