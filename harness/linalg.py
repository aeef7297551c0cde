"""C31 linear algebra (titus/lib/la.py); numpy is replaced by npmodel while executing symbolically, and is itself on replay."""
import math

from harness.lib import *
from harness import npmodel
from harness.npmodel import determinant, adjugate

D = "double"
V_, M_ = {"type": "array", "items": D}, {"type": "array", "items": {"type": "array", "items": D}}
VM, MM = {"type": "map", "values": D}, {"type": "map", "values": {"type": "map", "values": D}}


def elem(c, nm, special):
    return c.double(nm) if special else c.real(nm)


def vec(c, nm, n, special=False):
    k = c.choice(nm + ".len", list(range(n + 1)))
    s = c.choice(nm + ".special", list(range(k + 1))) if special and k else 0
    return [elem(c, "%s.%d" % (nm, i), special and i + 1 == s) for i in range(k)]


def arr(rows, cols, special=False, ragged=True, least=0):
    """up to rows x cols; ragged: every row has its own length"""
    def g(c, nm):
        r = c.choice(nm + ".rows", list(range(least, rows + 1)))
        if ragged:
            lens = [c.choice("%s.cols%d" % (nm, i), list(range(cols + 1))) for i in range(r)]
        else:
            lens = [c.choice(nm + ".cols", list(range(least, cols + 1)))] * r
        cells = [(i, j) for i in range(r) for j in range(lens[i])]
        s = c.choice(nm + ".special", [None] + cells[:2] + cells[-1:]) if special and cells else None
        return [[elem(c, "%s.%d.%d" % (nm, i, j), (i, j) == s) for j in range(lens[i])] for i in range(r)]
    return g


def mp(keys, special=False):
    def g(c, nm):
        out = {}
        for k in keys:
            if c.choice(nm + "?" + k, [False, True]):
                out[k] = elem(c, nm + "." + k, special)
        return out
    return g


def mmap(rows, cols, special=False, full=False):
    def g(c, nm):
        out, first = {}, special
        for r in rows:
            if full or c.choice(nm + "?" + r, [False, True]):
                out[r] = {}
                for k in cols:
                    if full or c.choice("%s?%s.%s" % (nm, r, k), [False, True]):
                        out[r][k] = elem(c, "%s.%s.%s" % (nm, r, k), first)
                        first = False
        return out
    return g


def cells(x):
    rows = set(x)
    cols = set(k for r in x.values() for k in r)
    return rows, cols


def get(x, i, j):
    return x[i][j] if i in x and j in x[i] else 0.0


def shape(x):
    return [len(r) for r in x]


def same_shape(x, y):
    return shape(x) == shape(y)


def entry(op):
    def arrays(c, x, y):
        if not same_shape(x, y):
            raise Err(op.code)
        return [[op(p, q) for p, q in zip(r, s)] for r, s in zip(x, y)]

    def vectors(c, x, y):
        if len(x) != len(y):
            raise Err(op.code)
        return [op(p, q) for p, q in zip(x, y)]

    def maps(c, x, y):
        return dict((k, op(x.get(k, 0.0), y.get(k, 0.0))) for k in set(x) | set(y))

    def mmaps(c, x, y):
        (r1, c1), (r2, c2) = cells(x), cells(y)
        return dict((i, dict((j, op(get(x, i, j), get(y, i, j))) for j in c1 | c2)) for i in r1 | r2)
    return arrays, vectors, maps, mmaps


class Op(object):
    def __init__(self, code, f):
        self.code, self.f = code, f

    def __call__(self, x, y):
        return self.f(x, y)


def grid(c, x, code, ragged_code):
    if len(x) < 1 or len(x[0]) < 1:
        raise Err(code)
    if len(set(shape(x))) != 1:
        raise Err(ragged_code)


def gridm(x, code):
    rows, cols = cells(x)
    if not rows or not cols:
        raise Err(code)
    return sorted(rows), sorted(cols)


def transpose(c, x):
    grid(c, x, 24060, 24061)
    return [[x[i][j] for i in range(len(x))] for j in range(len(x[0]))]


def transpose_m(c, x):
    rows, cols = gridm(x, 24060)
    if any(set(x[r]) != set(cols) for r in rows):
        raise Err(24061)
    return dict((j, dict((i, x[i][j]) for i in rows)) for j in cols)


def nonfinite(m):
    for r in m:
        for z in r:
            if z != z or z in (float("inf"), float("-inf")):
                return True
    return False


def times(m, v):
    out = []
    for r in m:
        t = 0.0
        for a, b in zip(r, v):
            t = t + a * b
        out.append(t)
    return out


def dot_mv(c, x, y):
    if len(set(shape(x))) > 1:
        raise Err(24050)
    if len(x) == 0 or len(y) == 0 or len(x[0]) == 0:
        raise Err(24051)
    if nonfinite(x) or nonfinite([y]):
        raise Err(24052)
    if len(x[0]) != len(y):
        raise Err(24050)
    return times(x, y)


def dot_mm(c, x, y):
    for m in (x, y):
        if len(set(shape(m))) > 1:
            raise Err(24050)
    for m in (x, y):
        if len(m) == 0 or len(m[0]) == 0:
            raise Err(24051)
    if nonfinite(x) or nonfinite(y):
        raise Err(24052)
    if len(x[0]) != len(y):
        raise Err(24050)
    yt = [[y[i][j] for i in range(len(y))] for j in range(len(y[0]))]
    return [times(yt, r) for r in x]


def dot_mvm(c, x, y):
    rows, cols = cells(x)
    inter = cols | set(y)
    if not rows or not inter:
        raise Err(24051)
    if nonfinite([r.values() for r in x.values()]) or nonfinite([y.values()]):
        raise Err(24052)
    return dict((i, sum([get(x, i, j) * y.get(j, 0.0) for j in sorted(inter)], 0.0)) for i in rows)


def dot_mmm(c, x, y):
    (r1, c1), (r2, c2) = cells(x), cells(y)
    inter = c1 | r2
    if not r1 or not inter or not c2:
        raise Err(24051)
    if nonfinite([r.values() for r in x.values()]) or nonfinite([r.values() for r in y.values()]):
        raise Err(24052)
    return dict((i, dict((j, sum([get(x, i, k) * get(y, k, j) for k in sorted(inter)], 0.0)) for j in c2)) for i in r1)


def trace(c, x):
    if len(x) == 0:
        return 0.0
    if len(set(shape(x))) != 1:
        raise Err(24080)
    return sum([x[i][i] for i in range(min(len(x), len(x[0])))], 0.0)


def trace_m(c, x):
    rows, cols = cells(x)
    return sum([get(x, i, i) for i in sorted(rows & cols)], 0.0)


def det(c, x):
    grid(c, x, 24090, 24091)
    if len(x) != len(x[0]):
        raise Err(24092)
    return float("nan") if nonfinite(x) else determinant(x)


def dense(x):
    rows, cols = cells(x)
    keys = sorted(rows | cols)
    return keys, [[get(x, i, j) for j in keys] for i in keys]


def det_m(c, x):
    keys, m = dense(x)
    if not keys or all(not r for r in x.values()):
        raise Err(24090)
    return float("nan") if nonfinite(m) else determinant(m)


def close(x, y, tol):
    fx, fy = not nonfinite([[x]]), not nonfinite([[y]])
    if fx and fy:
        return abs(x - y) < tol
    if fx or fy:
        return False
    return x == y or (x != x and y != y)


def symmetric(c, x, tol):
    grid(c, x, 24100, 24101)
    if len(x) != len(x[0]):
        raise Err(24102)
    return sym(x, tol)


def sym(x, tol):
    for i in range(len(x)):
        for j in range(len(x)):
            if not close(x[i][j], x[j][i], tol):
                return False
    return True


def symmetric_m(c, x, tol):
    keys, m = dense(x)
    if not keys or all(not r for r in x.values()):
        raise Err(24100)
    return sym(m, tol)


def truncate(c, x, keep):
    grid(c, x, 24120, 24121)
    return x[:max(0, keep)]


def truncate_m(c, x, keep):
    gridm(x, 24120)
    return dict((k, r) for k, r in x.items() if any(k == q for q in keep))


def scale(c, x, a):
    if isinstance(x, dict):
        return dict((k, scale(c, v, a)) for k, v in x.items())
    if isinstance(x, list):
        return [scale(c, v, a) for v in x]
    return x * a


def la(name, params, ret, expr, oracle, gens, pre=None, extra=None, **kw):
    """F with numpy replaced by its model"""
    job = F(name, params, ret, expr, oracle, gens=gens, pre=pre, extra=extra, **kw)
    inner = job.fn

    def fn(c, env):
        with npmodel.numpy_model(c):
            inner(c, env)
    job.fn = fn
    return job


def inverse(rows, cols, form, singular=None):
    """(pseudo-)inverse: the Penrose equations"""
    t = M_ if form == "array" else MM

    def setup():
        return fn_engine({"x": t}, t, {"la.inverse": ["input.x"]})

    def fn(c, env):
        if singular:
            # (small integers, for which double precision recognises singular matrices)
            m = [[c.int("x.%d.%d" % (i, j), -4, 4) + 0.0 for j in range(cols)] for i in range(rows)]
        else:
            m = [[c.real("x.%d.%d" % (i, j), -8, 8) for j in range(cols)] for i in range(rows)]
        if rows == cols:
            k = determinant(m)
            if singular:
                c.assume(k == 0)
            else:
                # (well conditioned, so that the validation runs in double precision agree)
                c.assume(c.or_(k >= 1, k <= -1))
        rk, ck = ["r%d" % i for i in range(rows)], ["c%d" % j for j in range(cols)]
        x = m if form == "array" else dict((rk[i], dict((ck[j], m[i][j]) for j in range(cols))) for i in range(rows))
        with npmodel.numpy_model(c):
            got = act(env, {"x": x})
        name = "inverse"
        if got[0] != "ok":
            return c.fail(name + ": unexpected error %s" % (got[1],))
        y = got[1] if form == "array" else [[got[1][j][i] for i in rk] for j in ck]
        c.check(len(y) == cols and all(len(r) == rows for r in y), name + ": shape")
        a = npmodel.Arr(m, 2, cols, True)
        try:
            want = (npmodel.pinv(a) if rows != cols or determinant(m) == 0 else npmodel.inv(a)).d
        except NotImplementedError:
            return
        for r, s in zip(y, want):
            for p, q in zip(r, s):
                c.check(c.eq(p, q, 1e-6), name + ": entries")
    return Job("inverse %dx%d %s%s" % (rows, cols, form, " singular" if singular else ""), fn, setup, qms=20000, bound="entries in [-8, 8]")


def eigen(form):
    """2x2: symmetric part V diag(l) V^T + antisymmetric part, for every rotation V and every pair of eigenvalues."""
    t = M_ if form == "array" else MM

    def setup():
        return fn_engine({"x": t}, t, {"la.eigenBasis": ["input.x"]})

    def fn(c, env):
        p = c.real("angle", -1, 1)
        den = 1 + p * p
        cs, sn = (1 - p * p) / den, 2 * p / den
        ls = []
        for nm in ("l1", "l2"):
            s = c.real(nm, 0.25, 8)
            neg = c.choice(nm + "neg", [False, True])
            ls.append((s, -s * s if neg else s * s))
        k = c.real("skew", -4, 4)
        l1, l2 = ls[0][1], ls[1][1]
        vs = [[cs, sn], [-sn, cs]]
        S = [[l1 * vs[0][i] * vs[0][j] + l2 * vs[1][i] * vs[1][j] for j in range(2)] for i in range(2)]
        m = [[S[0][0], S[0][1] + k], [S[1][0] - k, S[1][1]]]
        flip = c.choice("order", [False, True])
        sg = [c.choice("sign%d" % i, [1.0, -1.0]) for i in range(2)]

        def eig(a):
            # (the keys of a map may be taken in either order)
            at = [0, 1] if form == "array" or a[0, 0] == S[0][0] else [1, 0]
            for i in range(2):
                for j in range(2):
                    c.check(c.eq(a[i, j], S[at[i]][at[j]]), "eigenBasis: eigenvectors are those of the symmetric part")
            o = [1, 0] if flip else [0, 1]
            return npmodel.array([ls[i][1] for i in o]), npmodel.matrix([[sg[i] * vs[i][j] for i in o] for j in at])
        c.assume(ls[0][0] != ls[1][0])
        x = m if form == "array" else dict((a, dict((b, m[i][j]) for j, b in enumerate("ab"))) for i, a in enumerate("ab"))
        with npmodel.numpy_model(c, eig):
            got = act(env, {"x": x})
        c.check(got[0] == "ok", "eigenBasis: no error")
        y = got[1] if form == "array" else [[got[1][i][j] for j in "ab"] for i in "01"]
        first = 0 if ls[0][0] > ls[1][0] else 1
        for row, i in zip(y, [first, 1 - first]):
            s = ls[i][0]
            v = vs[i]
            # same direction, sign fixed by the first component
            up = c.or_(v[0] > 0)
            ok = c.or_(*[c.and_(c.eq(row[0] * s, f * v[0], 1e-5), c.eq(row[1] * s, f * v[1], 1e-5)) for f in (1, -1)])
            c.check(ok, "eigenBasis: scaled eigenvectors ordered by decreasing eigenvalue")
            if form == "array":
                c.check(c.le(-row[0], 0, 1e-9), "eigenBasis: first component not negative")
    return Job("eigenBasis " + form, fn, setup, qms=20000, limit=60, bound="2x2, eigenvalues of magnitude 1/16 to 64, of different magnitude")


def eigen_errors(form):
    t = M_ if form == "array" else MM
    g = arr(2, 2, True) if form == "array" else mmap("a", "ab", True)

    def oracle(c, x):
        if form == "array":
            grid(c, x, 24110, 24111)
            if len(x) != len(x[0]):
                raise Err(24112)
            bad = nonfinite(x)
        else:
            rows, cols = cells(x)
            if not cols:
                raise Err(24110)
            bad = nonfinite([r.values() for r in x.values()])
        if bad:
            raise Err(24113)
        c.assume(False)
    return la("eigenBasis errors " + form, {"x": t}, t, {"la.eigenBasis": ["input.x"]}, oracle, {"x": g})


def jobs(tier):
    deep = tier == "thorough"
    n = 3 if deep else 2
    keys = "ab"
    out = []
    u1 = {"fcns": {"f": {"params": [{"v": D}], "ret": D, "do": {"+": [{"*": ["v", "v"]}, 1]}}}}
    u2 = {"fcns": {"g": {"params": [{"v": D}, {"w": D}], "ret": D, "do": {"-": [{"*": ["v", 2]}, "w"]}}}}
    f1 = lambda v: v * v + 1
    out.append(la("map array", {"x": M_}, M_, {"la.map": ["input.x", {"fcn": "u.f"}]}, lambda c, x: [[f1(v) for v in r] for r in x], {"x": arr(n, n)}, extra=u1))
    out.append(la("map map", {"x": MM}, MM, {"la.map": ["input.x", {"fcn": "u.f"}]}, lambda c, x: dict((k, dict((j, f1(v)) for j, v in r.items())) for k, r in x.items()), {"x": mmap(keys, keys)}, extra=u1))
    for nm, t, g in [("vector", V_, lambda c, s: vec(c, s, 3, True)), ("matrix", M_, arr(n, n, True)), ("map", VM, mp("abc")), ("mapmatrix", MM, mmap(keys, keys, True))]:
        out.append(la("scale " + nm, {"x": t, "a": D}, t, {"la.scale": ["input.x", "input.a"]}, scale, {"x": g}))
    zm = Op(24020, lambda v, w: v * 2 - w)
    za, _, _, zmm = entry(zm)
    out.append(la("zipmap array", {"x": M_, "y": M_}, M_, {"la.zipmap": ["input.x", "input.y", {"fcn": "u.g"}]}, za, {"x": arr(2, 2), "y": arr(2, 2)}, extra=u2))
    out.append(la("zipmap map", {"x": MM, "y": MM}, MM, {"la.zipmap": ["input.x", "input.y", {"fcn": "u.g"}]}, zmm, {"x": mmap(keys, keys), "y": mmap("bc" if not deep else "abc", keys)}, extra=u2))
    for op, code, f in [("add", 24030, lambda x, y: x + y), ("sub", 24040, lambda x, y: x - y)]:
        a, v, m, mm = entry(Op(code, f))
        e = {"la." + op: ["input.x", "input.y"]}
        out.append(la(op + " matrix", {"x": M_, "y": M_}, M_, e, a, {"x": arr(2, n), "y": arr(2, n)}, limit=60))
        out.append(la(op + " vector", {"x": V_, "y": V_}, V_, e, v, {"x": lambda c, s: vec(c, s, 3), "y": lambda c, s: vec(c, s, 3, True)}))
        out.append(la(op + " map", {"x": VM, "y": VM}, VM, e, m, {"x": mp("abc"), "y": mp("bcd")}))
        out.append(la(op + " mapmatrix", {"x": MM, "y": MM}, MM, e, mm, {"x": mmap(keys, keys), "y": mmap("bc", "ab")}, limit=60))
    e = {"la.dot": ["input.x", "input.y"]}
    out.append(la("dot matrix vector", {"x": M_, "y": V_}, V_, e, dot_mv, {"x": arr(2, n, True), "y": lambda c, s: vec(c, s, n, True)}, limit=60))
    out.append(la("dot matrix matrix", {"x": M_, "y": M_}, M_, e, dot_mm, {"x": arr(n, n, True, ragged=False), "y": arr(n, n, True, ragged=False)}, limit=90))
    out.append(la("dot ragged matrix", {"x": M_, "y": M_}, M_, e, dot_mm, {"x": arr(2, 2), "y": arr(2, 2)}, limit=90))
    out.append(la("dot mapmatrix map", {"x": MM, "y": VM}, VM, e, dot_mvm, {"x": mmap(keys, keys, True), "y": mp("bc", True)}, limit=60))
    out.append(la("dot mapmatrix mapmatrix", {"x": MM, "y": MM}, MM, e, dot_mmm, {"x": mmap(keys, keys), "y": mmap("bc", "ab")}, limit=60))
    out.append(la("dot mapmatrix nonfinite", {"x": MM, "y": MM}, MM, e, dot_mmm, {"x": mmap("a", "ab", True), "y": mmap("b", "a", True)}))
    out.append(la("transpose array", {"x": M_}, M_, {"la.transpose": ["input.x"]}, transpose, {"x": arr(3, n)}))
    out.append(la("transpose map", {"x": MM}, MM, {"la.transpose": ["input.x"]}, transpose_m, {"x": mmap("abc" if deep else keys, "xy")}))
    out.append(la("trace array", {"x": M_}, D, {"la.trace": ["input.x"]}, trace, {"x": arr(3, 3 if deep else 2)}))
    out.append(la("trace map", {"x": MM}, D, {"la.trace": ["input.x"]}, trace_m, {"x": mmap("abc" if deep else keys, "bc" if deep else "ab")}))
    out.append(la("det array", {"x": M_}, D, {"la.det": ["input.x"]}, det, {"x": arr(2, 2, True)}))
    out.append(la("det 3x3", {"x": M_}, D, {"la.det": ["input.x"]}, det, {"x": arr(3, 3, False, False, 3)}))
    out.append(la("det map", {"x": MM}, D, {"la.det": ["input.x"]}, det_m, {"x": mmap(keys, "bc" if deep else keys, True)}))
    out.append(la("symmetric array", {"x": M_, "tol": D}, "boolean", {"la.symmetric": ["input.x", "input.tol"]}, symmetric, {"x": arr(2, 2, True)}))
    out.append(la("symmetric 3x3", {"x": M_, "tol": D}, "boolean", {"la.symmetric": ["input.x", "input.tol"]}, symmetric, {"x": arr(3, 3, False, False, 3)}))
    out.append(la("symmetric map", {"x": MM, "tol": D}, "boolean", {"la.symmetric": ["input.x", "input.tol"]}, symmetric_m, {"x": mmap(keys, "ab", True)}))
    out.append(la("truncate array", {"x": M_, "k": "int"}, M_, {"la.truncate": ["input.x", "input.k"]}, truncate, {"x": arr(3, 2), "k": lambda c, s: c.int(s)}))
    out.append(la("truncate map", {"x": MM, "k": {"type": "array", "items": "string"}}, MM, {"la.truncate": ["input.x", "input.k"]}, truncate_m,
                  {"x": mmap("abc", "x"), "k": lambda c, s: [c.str(s + str(i), 1, [(97, 100)]) for i in range(c.choice(s + ".len", [0, 1, 2]))]}))
    for form in ("array", "map"):
        for r, k in [(1, 1), (1, 2), (2, 1), (2, 2)] + ([(3, 3), (2, 3), (3, 2)] if deep else []):
            out.append(inverse(r, k, form))
        out.append(inverse(2, 2, form, True))
        out.append(eigen(form))
        out.append(eigen_errors(form))
    out.append(la("inverse errors", {"x": M_}, M_, {"la.inverse": ["input.x"]}, lambda c, x: (grid(c, x, 24070, 24071), c.assume(False))[1], {"x": arr(2, 2)}))
    return out
