"""C20 regression, support vector, neural and naive Bayes scores (titus/lib/model/reg.py, svm.py, neural.py, naive.py)."""
import math

from harness.lib import *
from harness import npmodel
from harness.linalg import la, times
from harness.npmodel import determinant, adjugate

D, I, S = "double", "int", "string"
A = lambda t: {"type": "array", "items": t}
M = lambda t: {"type": "map", "values": t}
INF = float("inf")


def R(name="Model", **fields):
    return {"type": "record", "name": name, "fields": [{"name": k, "type": fields[k]} for k in sorted(fields)]}


def vec(n, least=0, lens=None):
    def g(c, nm):
        k = c.choice(nm + ".len", lens if lens else list(range(least, n + 1)))
        return [c.real("%s.%d" % (nm, i)) for i in range(k)]
    return g


def mat(rows, cols, ragged=True):
    def g(c, nm):
        return [vec(cols)(c, "%s.%d" % (nm, i)) for i in range(c.choice(nm + ".rows", list(range(rows + 1))))]
    return g


def mp(keys):
    def g(c, nm):
        return dict((k, c.real(nm + "." + k)) for k in keys if c.choice(nm + "?" + k, [False, True]))
    return g


def mmp(rows, keys):
    def g(c, nm):
        return dict((r, mp(keys)(c, nm + "." + r)) for r in rows if c.choice(nm + "?" + r, [False, True]))
    return g


def real(c, nm):
    return c.real(nm)


def model(**gs):
    def g(c, nm):
        return dict((k, gs[k](c, nm + "." + k)) for k in sorted(gs))
    return g


def ip(x, y):
    t = 0.0
    for a, b in zip(x, y):
        t = t + a * b
    return t


# ---------------------------------------------------------------- linear models

def linear1(c, x, m):
    if len(x) != len(m["coeff"]):
        raise Err(31000)
    return ip(m["coeff"], x) + m["const"]


def linear2(c, x, m):
    if len(m["const"]) != len(m["coeff"]):
        raise Err(31001)
    for r in m["coeff"]:
        if len(r) != len(x):
            raise Err(31000)
    return [ip(r, x) + k for r, k in zip(m["coeff"], m["const"])]


def linear3(c, x, m):
    return ip([x[k] for k in sorted(set(x) & set(m["coeff"]))], [m["coeff"][k] for k in sorted(set(x) & set(m["coeff"]))]) + m["const"]


def linear4(c, x, m):
    out = {}
    for o in set(m["coeff"]) | set(m["const"]):
        row = m["coeff"].get(o, {})
        both = sorted(set(row) & set(x))
        out[o] = ip([row[k] for k in both], [x[k] for k in both]) + m["const"].get(o, 0.0)
    return out


def quad(x, C):
    t = 0.0
    for i in range(len(x)):
        for j in range(len(x)):
            t = t + x[i] * C[i][j] * x[j]
    return t


def var1(c, x, m):
    x, C = x + [1.0], m["covar"]
    if len(C) != len(x):
        raise Err(31010)
    for r in C:
        if len(r) != len(x):
            raise Err(31010)
    return quad(x, C)


def var2(c, x, m):
    return [var1(c, x, {"covar": C}) for C in m["covar"]]


def quadm(x, C):
    x = dict(x)
    x[""] = 1.0
    t = 0.0
    for i in sorted(x):
        for j in sorted(x):
            if i in C and j in C[i]:
                t = t + x[i] * C[i][j] * x[j]
    return t


def var3(c, x, m):
    return quadm(x, m["covar"])


def var4(c, x, m):
    return dict((k, quadm(x, C)) for k, C in m["covar"].items())


def square_mat(sizes):
    """square matrices of the given sizes, or with one row too short"""
    def g(c, nm):
        n = c.choice(nm + ".size", sizes)
        m = [[c.real("%s.%d.%d" % (nm, i, j)) for j in range(n)] for i in range(n)]
        if n and c.choice(nm + ".ragged", [False, True]):
            m[-1] = m[-1][:-1]
        return m
    return g


# ---------------------------------------------------------------- goodness of fit (deprecated names of test.*)

def ratio(p, q):
    if q == 0:
        return float("nan") if p == 0 else (INF if p > 0 else -INF)
    return p / q


def residual(code):
    def o(c, x, y):
        if isinstance(x, dict):
            if set(x) != set(y):
                raise Err(code)
            return dict((k, x[k] - y[k]) for k in x)
        if isinstance(x, list):
            if len(x) != len(y):
                raise Err(code)
            return [a - b for a, b in zip(x, y)]
        return x - y
    return o


def pull(code):
    def o(c, x, y, u):
        if isinstance(x, dict):
            if set(x) != set(y):
                raise Err(code)
            if set(x) != set(u):
                raise Err(code + 1)
            return dict((k, ratio(x[k] - y[k], u[k])) for k in x)
        if isinstance(x, list):
            if len(x) != len(y):
                raise Err(code)
            if len(x) != len(u):
                raise Err(code + 1)
            return [ratio(a - b, k) for a, b, k in zip(x, y, u)]
        return ratio(x - y, u)
    return o


def chi2(c, p, s):
    vals = [p[k] for k in sorted(p)] if isinstance(p, dict) else (p if isinstance(p, list) else [p])
    return {"chi2": s["chi2"] + sum([v * v for v in vals], 0.0), "DOF": s["DOF"] + 1}


COVARIANCES = [[[2.0, 1.0], [1.0, 1.5]], [[1.0, 3.0], [3.0, 1.0]], [[3.0, 1.0], [-1.0, 1.0]], [[-2.0, 0.0], [1.0, -4.0]]]  # (determinants are powers of two)


def mahalanobis(fn, code, form, deep=False):
    """sqrt((x-y)' C^-1 (x-y)); covariance matrices of double precision quality only"""
    v, m = (A(D), A(A(D))) if form == "array" else (M(D), M(M(D)))
    keys = ["p", "q", "r"]

    def setup():
        return fn_engine({"x": v, "y": v, "C": m}, D, {fn: ["input.x", "input.y", "input.C"]})

    def run(c, env):
        n = c.choice("n", [0, 1, 2])
        ny = c.choice("ny", [n, n + 1])
        shape = c.choice("shape", ["square", "short row", "extra row", "empty", "wide"] if form == "array" else ["square", "missing row", "missing entry"])
        x = [c.real("x%d" % i) for i in range(n)]
        y = [c.real("y%d" % i) for i in range(ny)]
        if n < 2 or deep:
            C = [[c.real("C%d%d" % (i, j)) for j in range(n)] for i in range(n)]
        else:
            C = c.choice("C", COVARIANCES)
        if shape == "square" and n and ny == n:
            d = determinant(C)
            c.assume(c.or_(d >= 1, d <= -1))
        X, Y, K = x, y, [list(r) for r in C]
        if form == "array":
            if shape == "short row" and n:
                K[-1] = K[-1][:-1]
            elif shape == "extra row":
                K.append([0.0] * n)
            elif shape == "empty":
                K = []
            elif shape == "wide":
                K = [r + [0.0] for r in K]
        else:
            X, Y = dict(zip(keys, x)), dict(zip(keys, y))
            K = dict((keys[i], dict((keys[j], C[i][j]) for j in range(n))) for i in range(n))
            if shape == "missing row" and n:
                del K[keys[n - 1]]
            elif shape == "missing entry" and n:
                del K[keys[n - 1]][keys[0]]
        with npmodel.numpy_model(c):
            got = act(env, {"x": X, "y": Y, "C": K})
        if n == 0:
            return c.check(got == ("err", code), "mahalanobis: empty")
        if ny != n:
            return c.check(got == ("err", code + 1), "mahalanobis: misaligned prediction")
        if shape != "square":
            return c.check(got == ("err", code + 2), "mahalanobis: misaligned covariance")
        if got[0] != "ok":
            return c.fail("mahalanobis: unexpected error %s" % (got[1],))
        z = [a - b for a, b in zip(x, y)]
        d = determinant(C)
        q = ip(z, [t / d for t in times(adjugate(C), z)])
        r = got[1]
        if q < 0:
            return c.check(r != r, "mahalanobis: not defined for a negative form")
        c.check(r >= 0, "mahalanobis: not negative")
        c.check(c.eq(r * r, q, 1e-6), "mahalanobis: squares to the quadratic form")
    return Job("%s %s" % (fn, form), run, setup, limit=60, qms=20000, bound="up to 2 dimensions, covariance of determinant at least 1 in magnitude (quick: four covariance matrices in 2 dimensions)")


# ---------------------------------------------------------------- Gaussian process

def gp(dims, outs, weight, sigma):
    """Exact in the table's outputs; abscissas, kernel and noise are concrete."""
    xs = [[0.0, 1.0, 2.5], [[0.0, 1.0], [1.0, 0.5], [2.0, 2.5]]][dims - 1]
    tt = D if outs == 0 else A(D)
    fields = {"x": D if dims == 1 else A(D), "to": tt}
    if sigma:
        fields["sigma"] = tt
    row = R("Row", **fields)
    ps = {"x": D if dims == 1 else A(D), "t": A(row), "w": ["null", D]}
    fcns = {"k": {"params": [{"p": A(D)}, {"q": A(D)}], "ret": D, "do": {"m.kernel.rbf": ["p", "q", 0.7]}}}

    def setup():
        return fn_engine(ps, tt, {"model.reg.gaussianProcess": ["input.x", "input.t", "input.w", {"fcn": "u.k"}]}, fcns=fcns)

    def fn(c, env):
        n = len(xs)
        free = c.choice("free", list(range(outs))) if outs else 0
        ys = [[c.real("y%d.%d" % (i, k), -8, 8) if k == free else [1.0, 4.0, 2.5][i] for k in range(max(outs, 1))] for i in range(n)]
        for k in range(max(outs, 1)):
            # (the outputs differ by enough for their spread to be well defined)
            c.assume(ys[1][k] - ys[0][k] >= 1)
            if sigma:
                # concrete ratios sigma / to
                for i in range(n):
                    c.assume(ys[i][k] > 0.5)
        w = c.real("w", -4, 4) if weight else None
        x = c.choice("x", [0.25, 1.0, 3.0]) if dims == 1 else c.choice("x", [[0.25, 0.75], [1.0, 0.5]])
        tab = []
        for i in range(n):
            r = {"x": xs[i], "to": ys[i] if outs else ys[i][0]}
            if sigma:
                r["sigma"] = [0.1 * v for v in ys[i]] if outs else 0.1 * ys[i][0]
            tab.append(r)
        with npmodel.numpy_model(c, delegate=True):
            got = act(env, {"x": x, "t": tab, "w": {"double": w} if weight else None})
        if got[0] != "ok":
            return c.fail("gaussian process: unexpected error %s" % (got[1],))
        res = got[1] if outs else [got[1]]
        c.check(len(res) == max(outs, 1), "gaussian process: one value per output")
        # best linear unbiased prediction with correlations K and regression weight w (estimated when null)
        import numpy as np
        X = np.array([v if dims == 2 else [v] for v in xs], dtype=float)
        mu, sd = X.mean(axis=0), X.std(axis=0)
        Z = (X - mu) / sd
        z = (np.array(x) - mu) / sd
        kern = lambda a, b: math.exp(-0.7 * sum((p - q) ** 2 for p, q in zip(a, b)))
        K = np.array([[kern(a, b) for b in Z] for a in Z])
        K = K + np.eye(n) * (0.01 if sigma else 10 * np.finfo(float).eps)
        Ki = np.linalg.inv(K)
        r = np.array([kern(z, b) for b in Z])
        one = np.ones(n)
        L = r.dot(Ki)
        best = one.dot(Ki) / one.dot(Ki).dot(one)
        for k in range(len(res)):
            y = [ys[i][k] for i in range(n)]
            m = npmodel.Arr(y, 1).mean()
            if weight:
                s = npmodel.Arr(y, 1).std()
                want = m + ip([float(v) for v in L], [v - m for v in y]) + s * w * float(1 - L.sum())
            else:
                cf = [float(L[i] + best[i] * (1 - L.sum())) for i in range(n)]
                want = m + ip(cf, [v - m for v in y])
            if k > 0 and not weight and c.known("gp-first-weight", True):
                continue
            c.check(c.and_(c.le(res[k] - want, 1e-5), c.le(want - res[k], 1e-5)), "gaussian process: best linear prediction")
    return Job("gaussianProcess %d-d %s%s%s" % (dims, "vector" if outs else "scalar", " weight" if weight else "", " sigma" if sigma else ""), fn, setup, limit=60, qms=3000,
               bound="three concrete abscissas and kernel, outputs in [-8, 8] (of two outputs one arbitrary at a time)")


def gp_errors(dims, outs):
    """Malformed inputs, each with its own error; numbers that are not finite are symbolic over the special values."""
    n = 3
    row = R("Row", x=D if dims == 1 else A(D), to=A(D) if outs else D)
    ps = {"x": D if dims == 1 else A(D), "t": A(row), "w": ["null", D]}
    fcns = {"k": {"params": [{"p": A(D)}, {"q": A(D)}], "ret": D, "do": {"m.kernel.rbf": ["p", "q", 0.7]}}}
    kinds = ["empty", "x", "table x", "table to", "weight"]
    if dims > 1:
        kinds += ["no features", "feature count"]
    if outs:
        kinds += ["no outputs", "output count"]

    def setup():
        return fn_engine(ps, A(D) if outs else D, {"model.reg.gaussianProcess": ["input.x", "input.t", "input.w", {"fcn": "u.k"}]}, fcns=fcns)

    def fn(c, env):
        kind = c.choice("kind", kinds)
        bad = c.double("bad")
        c.assume(c.or_(bad != bad, bad == float("inf"), bad == float("-inf")))
        x = 0.25 if dims == 1 else [0.25, 0.75]
        xs = [0.0, 1.0, 2.5] if dims == 1 else [[0.0, 1.0], [1.0, 0.5], [2.0, 2.5]]
        ys = [[1.0, 2.0], [3.0, 1.0], [2.0, 4.5]]
        w = None
        at = c.choice("at", list(range(n))) if kind in ("table x", "table to", "feature count", "output count", "no outputs") else 0
        k = c.choice("k", [0, 1]) if (kind in ("x", "table x") and dims > 1) or (kind == "table to" and outs) else 0
        want = {"empty": 0, "no features": 1, "feature count": 2, "no outputs": 3, "output count": 4, "x": 5, "table x": 6, "table to": 6, "weight": 7}[kind]
        if kind == "empty":
            xs, ys = [], []
        elif kind == "x":
            if dims == 1:
                x = bad
            else:
                x[k] = bad
        elif kind == "table x":
            if dims == 1:
                xs[at] = bad
            else:
                xs[at][k] = bad
        elif kind == "table to":
            ys[at][k] = bad
        elif kind == "weight":
            w = {"double": bad}
        elif kind == "no features":
            x = []
            xs = [[], [], []]
        elif kind == "feature count":
            xs[at] = c.choice("len", [[], [1.0], [1.0, 2.0, 3.0]])
        elif kind == "no outputs":
            ys = [[], [], []]
        elif kind == "output count":
            ys[at] = c.choice("len", [[], [1.0], [1.0, 2.0, 3.0]])
            if at == 0 and len(ys[0]) == 0:
                want = 3
        tab = [{"x": a, "to": b if outs else b[0]} for a, b in zip(xs, ys)]
        with npmodel.numpy_model(c, delegate=True):
            got = act(env, {"x": x, "t": tab, "w": w})
        c.check(got == ("err", 31080 + want), "gaussian process: %s" % kind)
    return Job("gaussianProcess errors %d-d %s" % (dims, "vector" if outs else "scalar"), fn, setup, limit=60, qms=3000,
               bound="one malformed part at a time in a table of three rows")


# ---------------------------------------------------------------- support vectors, networks, naive Bayes

def svm(c, x, m):
    if not m["negClass"] and not m["posClass"]:
        raise Err(12000)
    t = m["const"]
    for v in m["negClass"] + m["posClass"]:
        if len(v["supVec"]) != len(x):
            raise Err(12001)
        t = t + v["coeff"] * ip(v["supVec"], x)
    return t


def svs(n, dims):
    def g(c, nm):
        k = c.choice(nm + ".n", list(range(n + 1)))
        return [{"supVec": vec(0, lens=dims)(c, "%s.%d" % (nm, i)), "coeff": c.real("%s.%d.c" % (nm, i))} for i in range(k)]
    return g


def layers(deep):
    def g(c, nm):
        out = []
        shape = c.choice(nm + ".shape", [[], [(1, 2)], [(2, 2)], [(0, 2)], [(2, 1)], [(2, 2), (1, 2)], [(1, 2), (2, 1)], [(2, 2), (2, 1)], [(1, 2), (1, 1), (1, 1)]])
        fault = c.choice(nm + ".fault", [None, "bias", "row"]) if shape else None
        where = c.choice(nm + ".where", list(range(len(shape)))) if fault else None
        for i, (rows, cols) in enumerate(shape):
            w = [[c.real("%s.%d.w%d%d" % (nm, i, a, b)) for b in range(cols)] for a in range(rows)]
            b = [c.real("%s.%d.b%d" % (nm, i, a)) for a in range(rows)]
            if where == i and fault == "bias":
                b = b + [1.0]
            if where == i and fault == "row" and w:
                w[-1] = w[-1] + [1.0]
            out.append({"weights": w, "bias": b})
        return out
    return g


def network(c, x, m):
    if len(m) == 0:
        raise Err(11000)
    for i, l in enumerate(m):
        if len(l["bias"]) != len(l["weights"]):
            raise Err(11001)
        for r in l["weights"]:
            if len(r) != len(x):
                raise Err(11001)
        x = [ip(r, x) + b for r, b in zip(l["weights"], l["bias"])]
        if i < len(m) - 1:
            x = [v * v - v for v in x]
    return x


def lg(x):
    return math.log(x)


def nb_gauss(c, x, m):
    pairs = []
    if isinstance(x, dict):
        if set(x) != set(m):
            raise Err(10000)
        pairs = [(x[k], m[k]) for k in sorted(x)]
    else:
        if len(x) != len(m):
            raise Err(10000)
        pairs = list(zip(x, m))
    t = 0.0
    for v, p in pairs:
        if p["variance"] <= 0:
            raise Err(10001)
        t = t - 0.5 * math.log(2.0 * math.pi * p["variance"]) - 0.5 * ((v - p["mean"]) * (v - p["mean"]) / p["variance"])
    return t


def params(n, keys=None):
    def g(c, nm):
        one = lambda s: {"mean": c.real(s + ".m"), "variance": c.real(s + ".v")}
        if keys:
            return dict((k, one(nm + "." + k)) for k in keys if c.choice(nm + "?" + k, [False, True]))
        return [one("%s.%d" % (nm, i)) for i in range(c.choice(nm + ".len", list(range(n + 1))))]
    return g


def multinomial(form, record):
    """sum of datum * log(share of the class), up to the smoothing term"""
    t = A(D) if form == "array" else M(D)
    mt = R("NB", values=t) if record else t

    def setup():
        return fn_engine({"x": t, "m": mt}, D, {"model.naive.multinomial": ["input.x", "input.m"]})

    def fn(c, env):
        if form == "array":
            x, m = vec(2)(c, "x"), vec(2)(c, "m")
            px = list(zip(x, m))
            ok = len(x) == len(m)
            ms = m
        else:
            x, m = mp("ab")(c, "x"), mp("ab")(c, "m")
            ok = set(x) == set(m)
            px = [(x[k], m[k]) for k in sorted(x)] if ok else []
            ms = [m[k] for k in sorted(m)]
        got = act(env, {"x": x, "m": {"values": m} if record else m})
        if len(ms) == 0 or c.or_(*[v <= 0 for v in ms]):
            return c.check(got == ("err", 10011), "multinomial: classModel must be positive")
        if not ok:
            return c.check(got == ("err", 10010), "multinomial: misaligned")
        if got[0] != "ok":
            return c.fail("multinomial: unexpected error %s" % (got[1],))
        total = sum(ms, 0.0)
        from titus.lib.model.naive import tiny
        want = 0.0
        for v, p in px:
            want = want + v * math.log(p / total + tiny)
        c.check(c.eq(got[1], want, 1e-6), "multinomial: log likelihood")
    return Job("multinomial %s%s" % (form, " record" if record else ""), fn, setup)


def bernoulli(c, x, m):
    m = m["values"] if "values" in m and isinstance(m["values"], dict) else m
    t = 0.0
    for k in sorted(m):
        if c.or_(m[k] <= 0, m[k] >= 1):
            raise Err(10020)
    for k in sorted(m):
        t = t + math.log(1.0 - m[k])
    for w in x:
        for k in sorted(m):
            if w == k:
                t = t + math.log(m[k]) - math.log(1.0 - m[k])
    return t


def words(c, nm):
    return [c.choice("%s.%d" % (nm, i), ["a", "b", "z"]) for i in range(c.choice(nm + ".len", [0, 1, 2]))]


def jobs(tier):
    deep = tier == "thorough"
    n = 3 if deep else 2
    out = []
    e = {"model.reg.linear": ["input.x", "input.m"]}
    m1, m2, m3, m4 = R(coeff=A(D), const=D), R(coeff=A(A(D)), const=A(D)), R(coeff=M(D), const=D), R(coeff=M(M(D)), const=M(D))
    out.append(la("linear array", {"x": A(D), "m": m1}, D, e, linear1, {"x": vec(3), "m": model(coeff=vec(3), const=real)}))
    out.append(la("linear matrix", {"x": A(D), "m": m2}, A(D), e, linear2, {"x": vec(2), "m": model(coeff=mat(2, 2), const=vec(2))}))
    out.append(la("linear map", {"x": M(D), "m": m3}, D, e, linear3, {"x": mp("abc"), "m": model(coeff=mp("abd"), const=real)}))
    out.append(la("linear mapmatrix", {"x": M(D), "m": m4}, M(D), e, linear4, {"x": mp("ab"), "m": model(coeff=mmp("yz", "ab" if not deep else "abc"), const=mp("xy"))}))
    e = {"model.reg.linearVariance": ["input.x", "input.m"]}
    c1, c2, c3, c4 = R(covar=A(A(D))), R(covar=A(A(A(D)))), R(covar=M(M(D))), R(covar=M(M(M(D))))
    sq = square_mat([0, 1, 2, 3])
    few = square_mat([2, 1])
    out.append(la("variance array", {"x": A(D), "m": c1}, D, e, var1, {"x": vec(2), "m": model(covar=sq)}))
    out.append(la("variance matrix", {"x": A(D), "m": c2}, A(D), e, var2, {"x": vec(1), "m": model(covar=lambda c, s: [few(c, "%s.%d" % (s, i)) for i in range(c.choice(s + ".n", [0, 1, 2]))])}))
    out.append(la("variance map", {"x": M(D), "m": c3}, D, e, var3, {"x": mp("a"), "m": model(covar=mmp(["a", ""], ["a", "", "b"]))}, limit=60))
    out.append(la("variance mapmatrix", {"x": M(D), "m": c4}, M(D), e, var4, {"x": mp("a"), "m": model(covar=lambda c, s: dict((k, mmp(["a", ""], ["a", ""])(c, s + "." + k)) for k in "pq" if c.choice(s + "?" + k, [False, True])))}, limit=90))
    for form, v, g in [("scalar", D, real), ("array", A(D), vec(2)), ("map", M(D), mp("ab"))]:
        gs = dict((k, g) for k in "xyu")
        out.append(la("residual " + form, {"x": v, "y": v}, v, {"model.reg.residual": ["input.x", "input.y"]}, residual(31020), {"x": g, "y": g}))
        out.append(la("pull " + form, {"x": v, "y": v, "u": v}, v, {"model.reg.pull": ["input.x", "input.y", "input.u"]}, pull(31030), {"x": g, "y": g, "u": g}))
        st = R("Chi", chi2=D, DOF=I)
        out.append(la("chi2 " + form, {"x": v, "s": st}, st, {"model.reg.updateChi2": ["input.x", "input.s"]}, chi2, {"x": g, "s": lambda c, nm: {"chi2": c.real(nm), "DOF": c.int(nm + "n", 0, 2 ** 31 - 2)}}))
    out.append(la("reduced chi2", {"s": st}, D, {"model.reg.reducedChi2": ["input.s"]}, lambda c, s: ratio(s["chi2"], s["DOF"] + 0.0), {"s": lambda c, nm: {"chi2": c.real(nm), "DOF": c.int(nm + "n", -3, 5)}}))
    for form in ("array", "map"):
        out.append(mahalanobis("model.reg.mahalanobis", 31040, form, deep))
    for dims in (1, 2):
        for outs in (0, 2):
            out.append(gp_errors(dims, outs))
            for weight in (False, True):
                for sigma in (False, True) if deep or dims == 1 else (False,):
                    out.append(gp(dims, outs, weight, sigma))
    sv = R("SV", supVec=A(D), coeff=D)
    sm = R("SVM", const=D, posClass=A(sv), negClass=A("SV"))
    sm["fields"].sort(key=lambda f: f["name"])
    sm = {"type": "record", "name": "SVM", "fields": [{"name": "const", "type": D}, {"name": "negClass", "type": A(sv)}, {"name": "posClass", "type": A("SV")}]}
    dot = {"d": {"params": [{"p": A(D)}, {"q": A(D)}], "ret": D, "do": {"m.kernel.linear": ["p", "q"]}}}
    asym = {"d": {"params": [{"p": A(D)}, {"q": A(D)}], "ret": D, "do": {"-": [{"m.kernel.linear": ["p", "q"]}, {"*": [2, {"a.head": "q"}]}]}}}
    sg = model(const=real, negClass=svs(2, [1, 2]), posClass=svs(1 if not deep else 2, [1, 2]))
    out.append(F("svm", {"x": A(D), "m": sm}, D, {"model.svm.score": ["input.x", "input.m", {"fcn": "u.d"}]}, svm, gens={"x": vec(2), "m": sg}, extra={"fcns": dot}, limit=60))

    def svm_asym(c, x, m):
        if not m["negClass"] and not m["posClass"]:
            raise Err(12000)
        return svm(c, x, m) - sum([v["coeff"] * 2 * x[0] for v in m["negClass"] + m["posClass"]], 0.0)
    out.append(F("svm kernel order", {"x": A(D), "m": sm}, D, {"model.svm.score": ["input.x", "input.m", {"fcn": "u.d"}]}, svm_asym,
                 gens={"x": vec(0, lens=[2]), "m": model(const=real, negClass=svs(1, [2]), posClass=svs(1, [2]))}, extra={"fcns": asym}))
    ly = A(R("Layer", weights=A(A(D)), bias=A(D)))
    actf = {"s": {"params": [{"v": D}], "ret": D, "do": {"-": [{"*": ["v", "v"]}, "v"]}}}
    out.append(F("neural", {"x": A(D), "m": ly}, A(D), {"model.neural.simpleLayers": ["input.x", "input.m", {"fcn": "u.s"}]}, network,
                 gens={"x": vec(0, lens=[1, 2]), "m": layers(deep)}, extra={"fcns": actf}, limit=90))
    gp_ = R("P", mean=D, variance=D)
    e = {"model.naive.gaussian": ["input.x", "input.m"]}
    out.append(F("gaussian array", {"x": A(D), "m": A(gp_)}, D, e, nb_gauss, gens={"x": vec(2), "m": params(2)}))
    out.append(F("gaussian map", {"x": M(D), "m": M(gp_)}, D, e, nb_gauss, gens={"x": mp("ab"), "m": params(2, "ab")}))
    for form in ("array", "map"):
        for record in (False, True):
            out.append(multinomial(form, record))
    for record in (False, True):
        mt = R("B", values=M(D)) if record else M(D)
        g = mp("ab")
        out.append(F("bernoulli" + (" record" if record else ""), {"x": A(S), "m": mt}, D, {"model.naive.bernoulli": ["input.x", "input.m"]}, bernoulli,
                     gens={"x": words, "m": (lambda c, s: {"values": g(c, s)}) if record else g}))
    return out
