"""C30 probability distributions and special functions (titus/lib/prob/dist.py, titus/lib/spec.py)."""
import math
import itertools

import titus.lib.prob.dist as impl
import titus.lib.spec as spec
from harness.lib import *

D, I = "double", "int"
INF = float("inf")
PI = math.pi


def abstract(*a, **k):
    from sx import rt
    return rt.abstract(*a, **k)


def bad(*xs):
    return any([x != x or x == INF or x == -INF for x in xs])


def anyd(c, n):
    return c.double(n)


def fin(c, n):
    return c.real(n)


def ints(*xs):
    return lambda c, n: c.choice(n, list(xs))


def judge(c, got, want, name):
    """want: an outcome, a set of permitted error codes, or a predicate on the value."""
    c.observe(name + ".kind", got[0])
    c.observe(name + ".value", got[1])
    if isinstance(want, frozenset):
        c.check(got[0] == "err" and got[1] in want, name + ": one of the documented errors %s" % sorted(want))
        return
    c.check(got[0] == "ok", name + ": a value")
    if got[0] == "ok":
        c.check(isinstance(got[1], float), name + ": a double")
        if callable(want):
            want(got[1])
        elif want is not None:
            c.check(c.eq(got[1], want, 1e-7) if not bad(want) else c.same(got[1], want), name + ": value")


def dist(fcn, code, params, badp, badx, value, gens=None, form=None, label="", pre=None, **kw):
    """prob.dist.<fcn>: documented errors exactly for the invalid arguments, otherwise the value of the distribution."""
    name = fcn + label
    expr = {"prob.dist." + fcn: form or ["input." + n for n in params]}

    def setup():
        return fn_engine(params, D, expr)

    def fn(c, env):
        vals = {}
        for n, t in params.items():
            vals[n] = gens[n](c, n) if gens and n in gens else anyd(c, n) if t == D else c.int(n, -2 ** 31, 2 ** 31 - 1)
        if pre:
            pre(c, **vals)
        errs = set()
        if badp(**vals):
            errs.add(code)
        if badx(**vals):
            errs.add(code + 1)
        try:
            want = frozenset(errs) if errs else value(c, **vals)
        except OverflowError:
            return          # the value itself is beyond the range of doubles
        judge(c, act(env, vals), want, name)
    return Job(name, fn, setup, **kw)


def badprob(p, **k):
    return not (0 <= p <= 1)


def badx(x, **k):
    return bad(x)


def never(**k):
    return False


# ---------------------------------------------------------------- closed forms

def gaussian():
    def sig(s):
        return lambda mu, sigma, **k: bad(mu, sigma) or sigma < 0

    def badg(mu, sigma, **k):
        return bad(mu, sigma) or sigma < 0

    def ll(c, x, mu, sigma):
        if sigma == 0:
            return INF if x == mu else -INF
        return -((x - mu) / sigma) ** 2 / 2 - math.log(sigma * math.sqrt(2 * PI))

    def cdf(c, x, mu, sigma):
        if sigma == 0:
            return 0.0 if x < mu else 1.0
        return 0.5 * (1 + math.erf((x - mu) / (sigma * math.sqrt(2.0))))

    def qf(c, p, mu, sigma):
        if p == 0 or p == 1:
            return None if sigma == 0 else INF if p == 1 else -INF
        if sigma == 0:
            return mu
        # Abramowitz and Stegun 26.2.23
        tail = p if p <= 0.5 else 1 - p
        t = math.sqrt(-2 * math.log(tail))
        z = t - (2.515517 + 0.802853 * t + 0.010328 * t * t) / (1 + 1.432788 * t + 0.189269 * t * t + 0.001308 * t * t * t)
        return mu + sigma * (z if p > 0.5 else -z)
    rec = {"type": "record", "name": "N", "fields": [{"name": "mean", "type": D}, {"name": "variance", "type": D}]}
    for f, code, arg, bx, val in [("gaussianLL", 13000, "x", badx, ll), ("gaussianCDF", 13010, "x", badx, cdf), ("gaussianQF", 13020, "p", badprob, qf)]:
        yield dist(f, code, {arg: D, "mu": D, "sigma": D}, badg, bx, val)

        def vrec(c, val=val, arg=arg, **v):
            m = v["d"]
            return val(c, **{arg: v[arg], "mu": m["mean"], "sigma": math.sqrt(m["variance"])})
        yield dist(f, code, {arg: D, "d": rec}, lambda d, **k: bad(d["mean"], d["variance"]) or d["variance"] < 0, bx, vrec, label=" record",
                   gens={"d": lambda c, n: {"mean": c.double(n + "m"), "variance": c.double(n + "v")}})


def simple():
    """families in closed form"""
    def rate(**v):
        return bad(v["rate"]) or v["rate"] < 0

    def epdf(c, x, rate):
        return 0.0 if x < 0 or rate == 0 else rate * math.exp(-rate * x)

    def ecdf(c, x, rate):
        return 0.0 if x <= 0 or rate == 0 else 1 - math.exp(-rate * x)

    def eqf(c, p, rate):
        if p == 0:
            return 0.0
        return INF if rate == 0 or p == 1 else -math.log(1 - p) / rate
    for f, code, arg, bx, val in [("exponentialPDF", 13030, "x", badx, epdf), ("exponentialCDF", 13040, "x", badx, ecdf), ("exponentialQF", 13050, "p", badprob, eqf)]:
        yield dist(f, code, {arg: D, "rate": D}, rate, bx, val)

    def badc(location, scale, **k):
        return bad(location, scale) or scale <= 0
    for f, code, arg, bx, val in [
            ("cauchyPDF", 13180, "x", badx, lambda c, x, location, scale: 1 / (PI * scale * (1 + ((x - location) / scale) ** 2))),
            ("cauchyCDF", 13190, "x", badx, lambda c, x, location, scale: 0.5 + math.atan2(x - location, scale) / PI),
            ("cauchyQF", 13200, "p", badprob, lambda c, p, location, scale: INF if p == 1 else -INF if p == 0 else location + scale * math.tan(PI * (p - 0.5)))]:
        yield dist(f, code, {arg: D, "location": D, "scale": D}, badc, bx, val)

    def badu(lo, hi, **k):
        return bad(lo, hi) or lo >= hi

    def ucdf(c, x, lo, hi):
        return 0.0 if x <= lo else 1.0 if x >= hi else (x - lo) / (hi - lo)
    for f, code, arg, bx, val in [("uniformPDF", 13330, "x", badx, lambda c, x, lo, hi: 1 / (hi - lo) if lo <= x <= hi else 0.0),
                                  ("uniformCDF", 13340, "x", badx, ucdf), ("uniformQF", 13350, "p", badprob, lambda c, p, lo, hi: lo + p * (hi - lo))]:
        yield dist(f, code, {arg: D, "lo": D, "hi": D}, badu, bx, val)

    def badw(shape, scale, **k):
        return bad(shape, scale) or shape <= 0 or scale <= 0

    def wpdf(c, x, shape, scale):
        if x < 0:
            return 0.0
        if x == 0:
            return None if shape < 1 else 1 / scale if shape == 1 else 0.0
        return (shape / scale) * (x / scale) ** (shape - 1) * math.exp(-(x / scale) ** shape)

    def wcdf(c, x, shape, scale):
        return 0.0 if x <= 0 else 1 - math.exp(-(x / scale) ** shape)

    def wqf(c, p, shape, scale):
        return INF if p == 1 else 0.0 if p == 0 else scale * (-math.log(1 - p)) ** (1 / shape)
    for f, code, arg, bx, val in [("weibullPDF", 13420, "x", badx, wpdf), ("weibullCDF", 13430, "x", badx, wcdf), ("weibullQF", 13440, "p", badprob, wqf)]:
        yield dist(f, code, {arg: D, "shape": D, "scale": D}, badw, bx, val)

    def badl(mu, sd, **k):
        return bad(mu, sd) or sd <= 0

    def lpdf(c, x, mu, sd):
        return 0.0 if x <= 0 else math.exp(-((math.log(x) - mu) / sd) ** 2 / 2) / (x * sd * math.sqrt(2 * PI))

    def lcdf(c, x, mu, sd):
        return 0.0 if x <= 0 else 0.5 * (1 + math.erf((math.log(x) - mu) / sd / math.sqrt(2.0)))
    yield dist("lognormalPDF", 13240, {"x": D, "mu": D, "sd": D}, badl, badx, lpdf)
    yield dist("lognormalCDF", 13250, {"x": D, "mu": D, "sd": D}, badl, badx, lcdf)


def gamma_pdf(x, a, s):
    return math.exp((a - 1) * math.log(x / s) - x / s - math.log(s) - math.lgamma(a))


def special():
    """families whose cumulative distributions are the incomplete gamma and beta functions"""
    stubs = lambda c: {spec.regularizedGammaP: abstract(spec.regularizedGammaP, "gammaP", 0, 1),
                       spec.regularizedGammaQ: abstract(spec.regularizedGammaQ, "gammaQ", 0, 1),
                       spec.incompleteBetaFunction: abstract(spec.incompleteBetaFunction, "betaI", 0, 1),
                       spec.inverseIncompleteBetaFunction: abstract(spec.inverseIncompleteBetaFunction, "betaInv", 0, 1)}

    def badg(shape, scale, **k):
        return bad(shape, scale) or shape < 0 or scale < 0

    def gpdf(c, x, shape, scale):
        if shape == 0 or scale == 0:
            return INF if x == 0 else 0.0
        if x < 0:
            return 0.0
        if x == 0:
            return INF if shape < 1 else 1 / scale if shape == 1 else 0.0
        return gamma_pdf(x, shape, scale)

    def gcdf(c, x, shape, scale):
        if shape == 0 or scale == 0:
            return None if x < 0 else 0.0 if x == 0 else 1.0
        return 0.0 if x <= 0 else spec.regularizedGammaP(shape, x / scale)

    def gends(c, p, shape, scale):
        return INF if p == 1 else 0.0 if p == 0 else c.assume(False)
    yield dist("gammaPDF", 13120, {"x": D, "shape": D, "scale": D}, badg, badx, gpdf)
    yield dist("gammaCDF", 13130, {"x": D, "shape": D, "scale": D}, badg, badx, gcdf, stubs=stubs)
    pe = lambda c, n: c.choice(n, [0.0, 1.0, float("nan"), -0.1, 1.1, INF, -INF, -5e-324, 1.0000000000000002])
    yield dist("gammaQF", 13140, {"p": D, "shape": D, "scale": D}, lambda shape, scale, **k: bad(shape, scale) or shape <= 0 or scale <= 0, badprob, gends, gens={"p": pe}, label=" ends")

    dof = ints(-1, 0, 1, 2, 3, 5, 10)

    def badk(dof, **k):
        return dof < 0

    def cpdf(c, x, dof):
        if dof == 0:
            return INF if x == 0 else 0.0
        if x == 0:
            return None        # a single point, where the density is 0, 1/2 or unbounded
        return 0.0 if x < 0 else gamma_pdf(x, dof / 2.0, 2.0)

    def ccdf(c, x, dof):
        if dof == 0:
            return 1.0 if x > 0 else 0.0 if x < 0 else None
        return 0.0 if x <= 0 else spec.regularizedGammaP(dof / 2.0, x / 2)
    yield dist("chi2PDF", 13060, {"x": D, "dof": I}, badk, badx, cpdf, gens={"dof": dof}, bound="degrees of freedom up to 10")
    yield dist("chi2CDF", 13070, {"x": D, "dof": I}, badk, badx, ccdf, gens={"dof": dof}, stubs=stubs, bound="degrees of freedom up to 10")
    yield dist("chi2QF", 13080, {"p": D, "dof": I}, badk, badprob, lambda c, p, dof: INF if p == 1 else 0.0 if p == 0 or dof == 0 else c.assume(False), gens={"dof": dof, "p": pe}, label=" ends")

    def badpo(lam, **k):
        return bad(lam) or lam < 0

    def ppdf(c, x, lam):
        if lam == 0:
            return 1.0 if x == 0 else 0.0
        return 0.0 if x < 0 else math.exp(x * math.log(lam) - lam - math.lgamma(x + 1.0))

    def pcdf(c, x, lam):
        if lam == 0:
            return 1.0 if x >= 0 else 0.0
        return 0.0 if x < 0 else spec.regularizedGammaQ(x + 1.0, lam)
    yield dist("poissonPDF", 13090, {"x": I, "lam": D}, badpo, never, ppdf)
    yield dist("poissonCDF", 13100, {"x": I, "lam": D}, badpo, never, pcdf, stubs=stubs)
    yield dist("poissonQF", 13110, {"p": D, "lam": D}, badpo, badprob, lambda c, p, lam: 0.0 if lam == 0 or p == 0 else INF if p == 1 else c.assume(False), gens={"p": pe}, label=" ends")

    def badb(a, b, **k):
        return bad(a, b) or a <= 0 or b <= 0

    def bpdf(c, x, a, b):
        if x == 0 or x == 1:
            return None
        return 0.0 if x < 0 or x > 1 else math.exp((a - 1) * math.log(x) + (b - 1) * math.log1p(-x) - math.lgamma(a) - math.lgamma(b) + math.lgamma(a + b))
    yield dist("betaPDF", 13150, {"x": D, "a": D, "b": D}, badb, badx, bpdf)
    yield dist("betaCDF", 13160, {"x": D, "a": D, "b": D}, badb, badx, lambda c, x, a, b: 0.0 if x <= 0 else 1.0 if x >= 1 else spec.incompleteBetaFunction(x, a, b), stubs=stubs)
    yield dist("betaQF", 13170, {"p": D, "a": D, "b": D}, badb, badprob, lambda c, p, a, b: p if p == 0 or p == 1 else spec.inverseIncompleteBetaFunction(p, a, b), stubs=stubs)

    def badf(d1, d2, **k):
        return d1 <= 0 or d2 <= 0

    def fpdf(c, x, d1, d2):
        if x == 0:
            return None
        if x < 0:
            return 0.0
        r = d1 / float(d2)
        lb = math.lgamma(d1 / 2.0) + math.lgamma(d2 / 2.0) - math.lgamma((d1 + d2) / 2.0)
        return math.exp(math.log(r) * d1 / 2.0 + math.log(x) * (d1 / 2.0 - 1) - lb - math.log(1 + r * x) * (d1 + d2) / 2.0)
    g = {"d1": ints(-1, 0, 1, 2, 5), "d2": ints(-1, 0, 1, 2, 7)}
    fx = dict(g)
    yield dist("fPDF", 13210, {"x": D, "d1": I, "d2": I}, badf, badx, fpdf, gens=fx, bound="degrees of freedom up to 7")
    yield dist("fCDF", 13220, {"x": D, "d1": I, "d2": I}, badf, badx, lambda c, x, d1, d2: 0.0 if x <= 0 else spec.incompleteBetaFunction(d1 * x / (d1 * x + d2), d1 / 2.0, d2 / 2.0), gens=g, stubs=stubs,
               bound="degrees of freedom up to 7")
    yield dist("fQF", 13230, {"p": D, "d1": I, "d2": I}, badf, badprob, lambda c, p, d1, d2: INF if p == 1 else 0.0 if p == 0 else c.assume(False), gens=dict(g, p=pe), label=" ends")

    tdof = ints(-1, 0, 1, 2, 3, 10)

    def tpdf(c, x, dof):
        return (1 + x * x / dof) ** (-(dof + 1) / 2.0) / (math.sqrt(dof) * math.exp(math.lgamma(0.5) + math.lgamma(dof / 2.0) - math.lgamma(0.5 + dof / 2.0)))

    def tcdf(c, x, dof):
        if x == 0:
            return 0.5
        h = 0.5 * spec.incompleteBetaFunction(dof / (dof + x * x), dof / 2.0, 0.5)
        return 1 - h if x > 0 else h
    badt = lambda dof, **k: dof <= 0
    yield dist("tPDF", 13270, {"x": D, "dof": I}, badt, badx, tpdf, gens={"dof": tdof}, bound="degrees of freedom up to 10")
    yield dist("tCDF", 13280, {"x": D, "dof": I}, badt, badx, tcdf, gens={"dof": tdof}, stubs=stubs, bound="degrees of freedom up to 10")
    yield dist("tQF", 13290, {"p": D, "dof": I}, badt, badprob, lambda c, p, dof: INF if p == 1 else -INF if p == 0 else c.assume(False), gens={"dof": tdof, "p": pe}, label=" ends")
    yield dist("lognormalQF", 13260, {"p": D, "mu": D, "sd": D}, lambda mu, sd, **k: bad(mu, sd) or sd <= 0, badprob, lambda c, p, mu, sd: INF if p == 1 else 0.0 if p == 0 else c.assume(False),
               gens={"p": pe}, label=" ends")


# ---------------------------------------------------------------- quantiles found by search

def search(fcn, cdf, what, params, cases, calls, low=0.0):
    """the quantile found is one: the cumulative distribution there is p (within 1e-6)"""
    expr = {"prob.dist." + fcn: ["input.p"] + ["input." + n for n in params]}

    def setup():
        return fn_engine(dict({"p": D}, **params), D, expr), fn_engine(dict({"x": D}, **params), D, {"prob.dist." + cdf: ["input.x"] + ["input." + n for n in params]})

    def fn(c, env):
        case = c.choice("case", cases)
        p = c.real("p")
        c.assume(0 < p)
        c.assume(p < 1)
        args = dict(zip(params, case))
        got = act(env[0], dict({"p": p}, **args))
        c.check(got[0] == "ok", fcn + ": a value")
        if got[0] == "ok":
            x = got[1]
            c.check(low is None or x >= low, fcn + ": inside the support")
            back = act(env[1], dict({"x": x}, **args))
            c.check(back[0] == "ok" and c.le(abs(back[1] - p), 1e-6), fcn + ": the quantile of p has cumulative probability p")
    f = {"P": spec.regularizedGammaP, "I": spec.incompleteBetaFunction, "erf": math.erf}[what]
    return Job(fcn + " search", fn, setup, stubs=lambda c: {f: abstract(f, what, -1 if what == "erf" else 0, 1, calls=calls)}, limit=60,
               bound="at most %d evaluations of the cumulative distribution, taken as an unknown function" % calls)


# ---------------------------------------------------------------- incomplete gamma and beta functions

def gamma_series(deep):
    """gammaCDF near zero against the power series"""
    def setup():
        return fn_engine({"x": D, "a": D}, D, {"prob.dist.gammaCDF": ["input.x", "input.a", 1.0]})

    def fn(c, env):
        a = c.choice("a", [0.5, 1.0, 2.0, 3.5] if deep else [0.5, 2.0])
        x = c.real("x")
        c.assume(c.and_(x > 0, x <= (0.015625 if deep else 0.000244140625)))
        power = -x + a * math.log(x) - math.lgamma(a)
        # the leading factor, taken as an unknown between 0 and 1
        lead = math.exp(power)
        c.assume(c.and_(0 < lead, lead < 0.25))
        got = act(env, {"x": x, "a": a})
        total, term = 1 / a, 1 / a
        for n in range(1, 13):
            term = term * x / (a + n)
            total = total + term
        want = lead * total
        c.check(got[0] == "ok", "gamma series: a value")
        if got[0] == "ok":
            r = got[1]
            c.check(c.and_(c.le(r, want * (1 + 1e-11)), c.le(want * (1 - 1e-11), r)), "gamma series: value")
    return Job("gamma series", fn, setup, limit=60 if not deep else 300, qms=10000,
               bound="shapes 1/2, 1, 2, 7/2, arguments up to 1/64" if deep else "shapes 1/2 and 2, arguments up to 2^-12")


def close(c, got, want, rel, name):
    """equal to within a relative error, or both at the upper end"""
    c.check(got[0] == "ok", name + ": a value")
    if got[0] == "ok":
        r = got[1]
        if want > 1 - rel * 1e3:
            c.check(r >= 1 - rel * 2e3, name + ": value at the upper end")
        else:
            c.check(c.and_(c.le(r, want * (1 + rel)), c.le(want * (1 - rel), r)), name + ": value")


def beta_polynomial(deep):
    """betaCDF with an integral second shape below the mean, or an integral first shape above, is elementary"""
    def setup():
        return fn_engine({"x": D, "a": D, "b": D}, D, {"prob.dist.betaCDF": ["input.x", "input.a", "input.b"]})

    def fn(c, env):
        k = c.choice("k", [1, 2, 3] if deep else [1, 2])
        r = c.choice("r", [0.5, 1.0, 2.0, 2.5] if deep else [0.5, 2.0])
        upper = c.choice("upper", [False, True])
        a, b = (float(k), r) if upper else (r, float(k))
        x = c.real("x")
        mid = (a + 1) / (a + b + 2)
        c.assume(c.and_(x >= mid, x < 1 - 1 / 16.) if upper else c.and_(x < mid, x > 1 / 16.))
        got = act(env, {"x": x, "a": a, "b": b})
        y = 1 - x if upper else x
        pre = math.exp(math.lgamma(a + b) - math.lgamma(a) - math.lgamma(b) + a * math.log(x) + b * math.log(1 - x))
        # I_y(r, k) = y^r (1-y)^k / B * B * sum of (r)_j / j! (1-y)^(j-k)
        fact = 1.0
        for j in range(k):
            fact = fact * (max(j, 1)) / (r + j)
        total, poch = 0.0, 1.0
        for j in range(k):
            total = total + poch * (1 - y) ** j
            poch = poch * (r + j) / (j + 1)
        want = pre * fact * total / (1 - y) ** k
        if upper:
            want = 1 - want
        c.check(got[0] == "ok", "beta polynomial: a value")
        if got[0] == "ok":
            c.check(c.eq(got[1], want, 1e-9), "beta polynomial: value")
    return Job("beta polynomial", fn, setup, limit=60 if not deep else 300, qms=4000,
               bound="one shape 1, 2 or 3 (quick: 1 or 2), the other 1/2, 1, 2 or 5/2 (quick: 1/2 or 2), away from the ends by 1/16")


def poisson_sum(deep):
    def setup():
        return fn_engine({"x": I, "lam": D}, D, {"prob.dist.poissonCDF": ["input.x", "input.lam"]})

    def fn(c, env):
        k = c.choice("x", [0, 1, 2])
        small = c.choice("small", [True, False])
        lam = c.real("lam")
        c.assume(c.and_(lam > 0, lam <= 0.125) if small else lam >= k + 2)
        got = act(env, {"x": k, "lam": lam})
        c.check(got[0] == "ok", "poisson sum: a value")
        if got[0] != "ok":
            return
        pre = math.exp(-lam + (k + 1) * math.log(lam) - math.lgamma(k + 1.0))
        if small:
            total, term = 1.0 / (k + 1), 1.0 / (k + 1)
            for n in range(1, 10):
                term = term * lam / (k + 1 + n)
                total = total + term
            c.check(c.and_(c.le(1 - got[1], pre * total * 1.000001), c.le(pre * total * 0.999999, 1 - got[1])), "poisson sum: value for small rates")
        else:
            total = 0.0
            fact = 1.0
            for j in range(k + 1):
                total = total + lam ** j / fact
                fact = fact * (j + 1)
            want = pre * math.factorial(k) / lam ** (k + 1) * total
            c.check(c.and_(c.le(got[1], want * 1.000001), c.le(want * 0.999999, got[1])), "poisson sum: value for large rates")
    return Job("poisson sum", fn, setup, limit=60, qms=4000, bound="0, 1 or 2 events, rates up to 1/8 or at least two more than the number of events")


# ---------------------------------------------------------------- discrete families

def choose(n, k):
    r = 1
    for i in range(k):
        r = r * (n - i) // (i + 1)
    return r


def powr(p, k):
    r = 1.0
    for i in range(k):
        r = r * p
    return r


def quantile(c, name, pmf, p, top):
    """q is the smallest value whose cumulative probability reaches p; at equality the next one will do."""
    def check(q):
        total = 0.0
        for k in range(top + 1):
            before = total
            total = total + pmf(k)
            if q == k:
                c.check(c.and_(c.le(before, p + 1e-12), c.le(p, total + 1e-12)), name + ": the smallest value whose cumulative probability reaches p")
                return
        c.check(False, name + ": a value of the distribution")
    return check


def discrete(deep):
    sizes = [1, 2, 3, 4] + ([5, 6] if deep else [])
    prob = lambda c, n: c.double(n)

    def badb(size, prob, **k):
        return size <= 0 or not (0 <= prob <= 1)

    def mass(size, prob, k):
        return choose(size, k) * powr(prob, k) * powr(1 - prob, size - k)

    def bpdf(c, x, size, prob):
        return mass(size, prob, x) if 0 <= x <= size else 0.0
    xs = list(range(-1, max(sizes) + 2))
    g = {"x": lambda c, n: c.choice(n, xs), "size": ints(-1, 0, *sizes)}
    b = "sizes up to %d" % max(sizes)
    yield dist("binomialPDF", 13300, {"x": I, "size": I, "prob": D}, badb, never, bpdf, gens=g, bound=b)

    stubs = lambda c: {spec.incompleteBetaFunction: abstract(spec.incompleteBetaFunction, "betaI", 0, 1)}

    def bcdf(c, x, size, prob):
        if x < 0:
            return 0.0
        if x >= size or prob == 0:
            return 1.0
        if prob == 1:
            return 0.0
        k = math.floor(x)
        return spec.incompleteBetaFunction(1 - prob, size - k, k + 1.0)
    yield dist("binomialCDF", 13310, {"x": D, "size": I, "prob": D}, badb, badx, bcdf, gens={"size": g["size"]}, stubs=stubs, bound=b)

    def bqf(c, p, size, prob):
        if p == 1:
            return float(size)
        if p == 0:
            return 0.0
        return quantile(c, "binomialQF", lambda k: mass(size, prob, k), p, size)
    yield dist("binomialQF", 13320, {"p": D, "size": I, "prob": D}, badb, badprob, bqf, gens={"size": ints(0, 1, 2, 3)}, limit=60, bound="sizes up to 3")

    def badg(prob, **k):
        return not (0 < prob <= 1)

    def gpdf(c, x, prob):
        return prob * powr(1 - prob, x) if x >= 0 else 0.0

    def gcdf(c, x, prob):
        return 0.0 if x < 0 else 1 - powr(1 - prob, int(math.floor(x)) + 1)
    few = lambda c, n: c.choice(n, [-1, 0, 1, 2, 5])
    yield dist("geometricPDF", 13360, {"x": I, "prob": D}, badg, never, gpdf, gens={"x": few}, bound="values up to 5")

    def fewd(c, n):
        x = c.double(n)
        c.assume(c.or_(bad(x), x < 4) if not bad(x) else True)
        return x
    yield dist("geometricCDF", 13370, {"x": D, "prob": D}, badg, badx, gcdf, gens={"x": fewd}, bound="values below 4")

    def gqf(c, p, prob):
        if p == 1:
            return INF
        if p == 0 or prob == 1:
            return 0.0

        def check(q):
            # 1 - (1-prob)^q <= p <= 1 - (1-prob)^(q+1), in logarithms
            lp, lq = math.log1p(-p), math.log1p(-prob)
            c.check(c.and_(c.le(lp, q * lq + 1e-9), c.le((q + 1) * lq - 1e-9, lp)), "geometricQF: the smallest value whose cumulative probability reaches p")
        return check
    yield dist("geometricQF", 13380, {"p": D, "prob": D}, badg, badprob, gqf)

    def badh(m, n, k, **kw):
        return m < 0 or n <= 0 or k < 0 or k > m + n

    def hmass(m, n, k, x):
        return choose(m, x) * choose(n, k - x) / float(choose(m + n, k)) if 0 <= x <= m and 0 <= k - x <= n else 0.0
    small = [-1, 0, 1, 2, 3, 4]
    hg = {"m": ints(-1, 0, 1, 2, 4), "n": ints(-1, 1, 2, 3), "k": ints(-1, 0, 1, 2, 3, 5)}
    pm = {"m": I, "n": I, "k": I}
    yield dist("hypergeometricPDF", 13390, dict({"x": I}, **pm), badh, never, lambda c, x, m, n, k: hmass(m, n, k, x), gens=dict(hg, x=ints(-1, 0, 1, 2, 4, 5)), bound="up to 7 balls")

    def hcdf(c, x, m, n, k):
        if c.known("hypergeometric-above", x > m and sum([hmass(m, n, k, i) for i in range(0, x + 1)], 0.0) > 0):
            return lambda r: None
        return sum([hmass(m, n, k, i) for i in range(0, x + 1)], 0.0)
    yield dist("hypergeometricCDF", 13400, dict({"x": I}, **pm), badh, never, hcdf, gens=dict(hg, x=ints(-1, 0, 1, 2, 4, 5)), bound="up to 7 balls")

    def hqf(c, p, m, n, k):
        return quantile(c, "hypergeometricQF", lambda i: hmass(m, n, k, i), p, min(m, k))
    yield dist("hypergeometricQF", 13410, dict({"p": D}, **pm), badh, badprob, hqf, gens=hg, bound="up to 7 balls")

    def badn(size, prob, **k):
        return size < 0 or not (0 < prob <= 1)

    def nmass(size, prob, x):
        if x < 0:
            return 0.0
        if size == 0:
            return 1.0 if x == 0 else 0.0
        return choose(size + x - 1, x) * powr(prob, size) * powr(1 - prob, x)
    sz = ints(-1, 0, 1, 2, 3)
    yield dist("negativeBinomialPDF", 13450, {"x": I, "size": I, "prob": D}, badn, never, lambda c, x, size, prob: nmass(size, prob, x), gens={"size": sz, "x": few}, bound="sizes up to 3, values up to 5")

    def ncdf(c, x, size, prob):
        return sum([nmass(size, prob, i) for i in range(0, int(math.floor(x)) + 1)], 0.0) if x >= 0 else 0.0
    yield dist("negativeBinomialCDF", 13460, {"x": D, "size": I, "prob": D}, badn, badx, ncdf, gens={"size": sz, "x": fewd}, bound="sizes up to 3, values below 4")
    pc = lambda c, n: c.choice(n, [0.0, 1.0, 0.3, 0.75, -0.1, 1.1, float("nan"), INF])

    def nqf(c, p, size, prob):
        if size == 0 or p == 0:
            return 0.0
        if p == 1:
            return INF
        c.assume(p <= 0.9)
        return quantile(c, "negativeBinomialQF", lambda k: nmass(size, prob, k), p, 16)
    yield dist("negativeBinomialQF", 13470, {"p": D, "size": I, "prob": D}, badn, badprob, nqf, gens={"size": ints(-1, 0, 1, 2), "prob": lambda c, n: c.choice(n, [-0.1, 0.0, 0.25, 0.5, 1.0, 1.1, float("nan")])}, limit=60,
               bound="sizes up to 2, three probabilities, quantiles up to 0.9")


# ---------------------------------------------------------------- special functions

def specials():
    def job(name, params, ret, expr, o, gens, **kw):
        def setup():
            return fn_engine(params, ret, {"m.special." + expr: ["input." + n for n in params]})

        def fn(c, env):
            vals = {n: gens[n](c, n) for n in params}
            try:
                want = ("ok", o(c, **vals))
            except Err as e:
                want = ("err", e.code)
            if want == ("ok", SKIP):
                return
            agree(c, act(env, vals), want, name)
        return Job(name, fn, setup, **kw)

    def nck(c, n, k):
        if n == k:
            return SKIP
        if k == 0:
            return 1
        if n < k or k < 0:
            raise Err(36000)
        r = choose(n, k)
        if r > 2 ** 31 - 1:
            raise Err(36000)
        return r
    big = [-2 ** 31, -5, -1, 0, 1, 2, 3, 5, 10, 16, 17, 20, 33, 34, 100, 65536, 2 ** 31 - 1]
    yield job("nChooseK", {"n": I, "k": I}, I, "nChooseK", nck, {"n": lambda c, s: c.choice(s, big), "k": lambda c, s: c.choice(s, [-1, 0, 1, 2, 3, 5, 15, 16, 17, 50])}, bound="seventeen n and ten k")
    lg = math.lgamma

    def lnbeta(c, a, b):
        if a <= 0 or b <= 0:
            raise Err(36010)
        return SKIP if bad(a, b) else lg(a) + lg(b) - lg(a + b)
    yield job("lnBeta", {"a": D, "b": D}, D, "lnBeta", lnbeta, {"a": anyd, "b": anyd})
    yield job("erf", {"x": D}, D, "erf", lambda c, x: math.erf(x), {"x": anyd})
    yield job("erfc", {"x": D}, D, "erfc", lambda c, x: math.erfc(x), {"x": anyd})

    def lngamma(c, x):
        if x <= 0:
            raise Err(36050)
        return SKIP if bad(x) else lg(x)
    yield job("lnGamma", {"x": D}, D, "lnGamma", lngamma, {"x": anyd})


# ---------------------------------------------------------------- extreme arguments

REAL = [-1e300, -800.0, -1.0, -1e-9, 0.0, 1e-300, 1e-9, 0.5, 1.0, 3.0, 800.0, 1e5, 1e300]
POS = [1e-6, 0.01, 0.5, 1.0, 2.0, 30.0, 500.0]
PROB = [1e-300, 1e-12, 0.001, 0.3, 0.5, 0.999, 1 - 1e-9, 1 - 2.0 ** -53]
DOF = [1, 2, 3, 30, 400]
WHOLE = [-1, 0, 1, 2, 7, 60, 2000]


def extremes():
    fam = {
        "gaussian": [("mu", [-1e5, 0.0, 3.0]), ("sigma", [1e-200, 1e-3, 1.0, 1e200])],
        "exponential": [("rate", POS)], "chi2": [("dof", DOF)], "poisson": [("lambda", [1e-6, 0.5, 3.0, 100.0])],
        "gamma": [("shape", POS[1:-1]), ("scale", POS)], "beta": [("a", POS[1:-1]), ("b", POS[1:-1])],
        "cauchy": [("location", [-1e5, 0.0, 3.0]), ("scale", POS)], "f": [("d1", DOF), ("d2", DOF)],
        "lognormal": [("meanlog", [-30.0, 0.0, 3.0, 600.0]), ("sdlog", [1e-9, 0.1, 1.0, 30.0])], "t": [("dof", DOF)],
        "binomial": [("size", [1, 2, 7, 100, 2000]), ("prob", [0.0, 1e-6, 0.3, 0.5, 0.99, 1.0])], "uniform": [("min", [-1e5, 0.0]), ("max", [1e-9, 3.0, 1e300])],
        "geometric": [("prob", [1e-6, 0.3, 0.99, 1.0])], "hypergeometric": [("m", [0, 1, 7, 60, 2000]), ("n", [1, 7, 60, 2000]), ("k", [0, 1, 2, 8])],
        "weibull": [("shape", POS), ("scale", POS)], "negativeBinomial": [("size", [0, 1, 2, 30]), ("prob", [0.001, 0.3, 0.99, 1.0])]}
    whole = {"poissonPDF", "poissonCDF", "binomialPDF", "geometricPDF", "hypergeometricPDF", "hypergeometricCDF", "negativeBinomialPDF"}
    stepped = {"poisson", "binomial", "geometric", "hypergeometric", "negativeBinomial"}
    for f, pars in sorted(fam.items()):
        for kind in ("PDF", "CDF", "QF"):
            if f == "gaussian" and kind == "PDF":
                continue
            yield extreme(f, kind, pars, f + kind in whole, f in stepped)


def extreme(f, kind, pars, whole, stepped):
    fcn = f + kind
    params = {"x": I if whole else D}
    for n, vals in pars:
        params[n] = I if isinstance(vals[0], int) else D

    def setup():
        cdf = dict(params, x=I if f in ("poisson", "hypergeometric") else D)
        return (fn_engine(params, D, {"prob.dist." + fcn: ["input." + n for n in params]}),
                fn_engine(cdf, D, {"prob.dist." + f + "CDF": ["input." + n for n in params]}))

    def fn(c, env):
        vals = {n: c.choice(n, v) for n, v in pars}
        if f == "hypergeometric":
            c.assume(vals["k"] <= vals["m"] + vals["n"])
        xs = (PROB[1:] if f == "beta" else PROB) if kind == "QF" else WHOLE if whole else REAL
        if f == "negativeBinomial" and kind == "QF":
            xs = [p for p in xs if vals["prob"] > 0.01 or 1e-6 < p < 0.5]
        out = []
        if f == "weibull" and kind == "PDF" and vals["shape"] < 1:
            xs = [x for x in xs if x != 0]       # infinite there
        for x in xs:
            got = act(env[0], dict(vals, x=x))
            fine = got[0] == "ok" and isinstance(got[1], float) and got[1] == got[1]
            c.check(fine, fcn + " extremes: a number" + ("" if fine else ", got %r at %r for %r" % (got, x, vals)))
            if not fine:
                return
            out.append(got[1])
        if kind == "PDF":
            for x, r in zip(xs, out):
                c.check(r >= 0, fcn + " extremes: never negative")
        elif kind == "CDF":
            last = 0.0
            for x, r in zip(xs, out):
                if f == "hypergeometric" and x > vals["m"]:
                    continue            # the known finding
                c.check(last - 1e-9 <= r <= 1, fcn + " extremes: between the previous value and 1")
                last = r
        elif f != "gaussian":
            last = -INF
            for p, q in zip(xs, out):
                c.check(q >= last * (1 - 1e-6) if last > 0 else q >= last - 1e-6 or q >= last * (1 + 1e-6), fcn + " extremes: quantiles are ordered")
                last = q
                if stepped and abs(q) < 1e6:
                    back = act(env[1], dict(vals, x=int(q) if f in ("poisson", "hypergeometric") else q))
                    c.check(back[0] == "ok" and back[1] >= p - 1e-6, fcn + " extremes: the cumulative probability reaches p")
    return Job(fcn + " extremes", fn, setup, limit=100, max_paths=4000, bound="listed extreme arguments and parameters")


def jobs(tier):
    deep = tier == "thorough"
    out = list(gaussian()) + list(simple()) + list(special()) + list(discrete(deep)) + list(specials()) + list(extremes())
    calls = 8 if deep else 6
    out.append(search("gammaQF", "gammaCDF", "P", {"shape": D, "scale": D}, [(0.5, 1.0), (2.0, 1.5)], calls))
    out.append(search("chi2QF", "chi2CDF", "P", {"dof": I}, [(1,), (4,)], calls))
    out.append(search("fQF", "fCDF", "I", {"d1": I, "d2": I}, [(1, 1), (3, 5)], calls))
    out.append(search("tQF", "tCDF", "I", {"dof": I}, [(1,), (5,)], calls, low=None))
    out.append(search("lognormalQF", "lognormalCDF", "erf", {"mu": D, "sd": D}, [(0.0, 1.0), (-1.0, 0.25)], calls))
    out += [gamma_series(deep), beta_polynomial(deep), poisson_sum(deep)]
    return out
