"""stat.sample.*, stat.change.*, stat.test.* (lib/stat)."""
import math

from harness.lib import *
from harness.arrays import need, concretize, NAN, INF

D = "double"
AD = {"type": "array", "items": "double"}
AAD = {"type": "array", "items": AD}
MD = {"type": "map", "values": "double"}
MMD = {"type": "map", "values": MD}


def rec(name, *fields):
    fs = []
    for f in fields:
        f = f if isinstance(f, tuple) else (f, D)
        fs.append({"name": f[0], "type": f[1]})
    return {"type": "record", "name": name, "fields": fs}


def moments(c, label, old, new, x, w, count):
    """The accumulator invariants: sums of w, w*x and w*x*x grow by exactly the datum's contribution."""
    n0, n1 = old["count"], new["count"]
    c.check(n1 == n0 + w, label + ": sum of weights")
    if "mean" in old:
        c.check(new["mean"] * n1 == old["mean"] * n0 + w * x, label + ": sum of w*x")
    if "variance" in old:
        def s2(st, n):
            return (st["variance"] + st["mean"] * st["mean"]) * n
        c.check(s2(new, n1) == s2(old, n0) + w * x * x, label + ": sum of w*x*x")


def update(fields):
    T = rec("St", "count", *fields + [("tag", "int")])

    def setup():
        return fn_engine({"x": D, "w": D, "st": T}, T, {"stat.sample.update": ["input.x", "input.w", "input.st"]})

    def fn(c, env):
        st = gen(c, "st", T, B())
        x, w = c.real("x"), c.real("w")
        n = st["count"]
        c.assume(c.and_(n >= 0, w >= 0, n + w > 0))
        before = copy_tree(st)
        got = act(env, {"x": x, "w": w, "st": st})
        c.check(got[0] == "ok", "update succeeds")
        new = got[1]
        c.check(conforms(c, T, new), "result conforms")
        c.check(c.same(new["tag"], st["tag"]), "other fields kept")
        c.check(c.same(st, before), "state unmodified")
        moments(c, "update", before, new, x, w, n)
    return Job("stat.sample.update " + "+".join(["count"] + fields), fn, setup, limit=240)


def update0(c):
    pass


def covariance():
    n = 2
    T = rec("St", "count", ("mean", AD), ("covariance", AAD))

    def setup():
        return fn_engine({"x": AD, "w": D, "st": T}, T, {"stat.sample.updateCovariance": ["input.x", "input.w", "input.st"]})

    def fn(c, env):
        x = [c.real("x%d" % i) for i in range(n)]
        w, count = c.real("w"), c.real("count")
        mean = [c.real("m%d" % i) for i in range(n)]
        cov = [[c.real("c%d%d" % (i, j)) for j in range(n)] for i in range(n)]
        c.assume(c.and_(count >= 0, w >= 0, count + w > 0))
        st = {"count": count, "mean": mean, "covariance": cov}
        before = copy_tree(st)
        got = act(env, {"x": x, "w": w, "st": st})
        c.check(got[0] == "ok", "succeeds")
        new = got[1]
        c.check(c.same(st, before), "state unmodified")
        N = count + w
        c.check(new["count"] == N, "count")
        c.check(len(new["mean"]) == n and len(new["covariance"]) == n, "shape")
        for i in range(n):
            c.check(new["mean"][i] * N == mean[i] * count + w * x[i], "mean")
            for j in range(n):
                c.check((new["covariance"][i][j] + new["mean"][i] * new["mean"][j]) * N == (cov[i][j] + mean[i] * mean[j]) * count + w * x[i] * x[j], "covariance")
    yield Job("stat.sample.updateCovariance array", fn, setup, limit=240)

    def o(c, x, st):
        if len(x) < 2:
            raise Err(14011)
        if len(st["mean"]) != len(x) or len(st["covariance"]) != len(x):
            raise Err(14012)
        for r in st["covariance"]:
            if len(r) != len(x):
                raise Err(14012)
        return True

    def ragged(c, name):
        k = [c.choice(name + ".m", [0, 1, 2, 3]), c.choice(name + ".n", [1, 2, 3])]
        bad = c.choice(name + ".row", [0, 1, 2])
        rows = [[1.0] * (2 if i != bad else c.choice(name + ".l", [1, 2, 3])) for i in range(k[1])]
        return {"count": 1.0, "mean": [0.0] * k[0], "covariance": rows}
    T2 = rec("St", "count", ("mean", AD), ("covariance", AAD))
    yield F("stat.sample.updateCovariance shapes", {"x": AD, "st": T2}, "boolean",
            {"do": [{"stat.sample.updateCovariance": ["input.x", 1.0, "input.st"]}, True]}, o, gens={"st": ragged})

    TM = rec("St", ("count", MMD), ("mean", MD), ("covariance", MMD))

    def setup2():
        return fn_engine({"x": MD, "w": D, "st": TM}, TM, {"stat.sample.updateCovariance": ["input.x", "input.w", "input.st"]})

    def fn2(c, env):
        keys = "ab"
        x = {}
        for k in "abc":
            if c.choice("x?" + k, [False, True]):
                x[k] = c.real("x" + k)
        w = c.real("w")
        c.assume(w > 0)
        present = c.choice("fresh", [False, True])
        if present:
            cnt = {i: {j: c.real("n" + i + j) for j in keys} for i in keys}
            c.assume(c.and_(*[cnt[i][j] >= 0 for i in keys for j in keys]))
            mean = {i: c.real("m" + i) for i in keys}
            cov = {i: {j: c.real("c" + i + j) for j in keys} for i in keys}
        else:
            cnt, mean, cov = {}, {}, {}
        st = {"count": cnt, "mean": mean, "covariance": cov}
        before = copy_tree(st)
        got = act(env, {"x": x, "w": w, "st": st})
        if len(x) < 2:
            return c.check(got == ("err", 14011), "too few components")
        c.check(got[0] == "ok", "succeeds")
        c.check(c.same(st, before), "state unmodified")
        new = got[1]
        allk = sorted(set(x) | set(mean))
        c.check(sorted(new["count"]) == allk and sorted(new["mean"]) == allk and sorted(new["covariance"]) == allk, "keys")
        for i in allk:
            n0 = cnt.get(i, {})
            m0 = mean.get(i, 0.0)
            if i in x:
                c.check(new["mean"][i] * new["count"][i][i] == m0 * n0.get(i, 0.0) + w * x[i], "mean of updated key")
            else:
                c.check(c.same(new["mean"][i], m0), "mean of absent key")
            c.check(sorted(new["count"][i]) == allk and sorted(new["covariance"][i]) == allk, "row keys")
            for j in allk:
                c0, v0 = n0.get(j, 0.0), cov.get(i, {}).get(j, 0.0)
                if i in x and j in x:
                    mi, mj = mean.get(i, 0.0), mean.get(j, 0.0)
                    N = c0 + w
                    c.check(new["count"][i][j] == N, "count of updated pair")
                    # sum of w (xi - mi)(xj - mj) about the old means, moved to the new pairwise mean
                    c.check(new["covariance"][i][j] * N * N == v0 * c0 * N + w * c0 * (x[i] - mi) * (x[j] - mj), "covariance of updated pair")
                else:
                    c.check(c.same(new["count"][i][j], c0), "count of other pair")
                    c.check(c.same(new["covariance"][i][j], v0), "covariance of other pair")
    yield Job("stat.sample.updateCovariance map", fn2, setup2, limit=300)


def window():
    for fields in ([], ["mean"], ["mean", "variance"]):
        T = rec("St", "x", "w", "count", *fields)
        TA = {"type": "array", "items": T}

        def setup(T=T, TA=TA):
            return fn_engine({"x": D, "w": D, "st": TA, "n": "int"}, TA, {"stat.sample.updateWindow": ["input.x", "input.w", "input.st", "input.n"]})

        def fn(c, env, fields=fields, T=T):
            # a window whose last record summarizes its entries; window size possibly smaller or larger than it
            k = c.choice("len", [0, 1, 2, 3] if len(fields) < 2 else [0, 1, 2])
            n = c.choice("n", [-1, 0, 1, 2, 3, 4])
            lo = 1 if len(fields) == 2 else None
            xs = [c.real("x%d" % i) for i in range(k)]
            if len(fields) == 2:
                ws = [1.0 * c.choice("w%d" % i, [1, 2]) for i in range(k)]
                w = 1.0 * c.choice("w", [1, 3])
            else:
                ws = [c.real("w%d" % i) for i in range(k)]
                w = c.real("w")
                c.assume(c.and_(w > 0, *[a > 0 for a in ws]))
            x = c.real("x")

            def summary(xs, ws):
                out = {"x": xs[-1], "w": ws[-1], "count": sum(ws)}
                if fields:
                    out["mean"] = sum([a * b for a, b in zip(xs, ws)]) / sum(ws)
                if len(fields) == 2:
                    out["variance"] = sum([b * a * a for a, b in zip(xs, ws)]) / sum(ws) - out["mean"] * out["mean"]
                return out
            st = [summary(xs[:i + 1], ws[:i + 1]) for i in range(k)]
            before = copy_tree(st)
            got = act(env, {"x": x, "w": w, "st": st, "n": n})
            if n < 2:
                return c.check(got == ("err", 14020), "window size below 2")
            c.check(got[0] == "ok", "succeeds")
            c.check(c.same(st, before), "window unmodified")
            new = got[1]
            xs2, ws2 = (xs + [x])[-n:], (ws + [w])[-n:]
            c.check(len(new) == len(xs2), "window length")
            c.check(c.same(new[:-1], before[len(xs) + 1 - len(xs2):]), "kept records")
            last = new[-1]
            c.check(c.and_(last["x"] == x, last["w"] == w), "datum recorded")
            N = sum(ws2)
            c.check(last["count"] == N, "window count")
            if fields:
                S = sum([a * b for a, b in zip(xs2, ws2)])
                c.check(last["mean"] * N == S, "window mean")
            if len(fields) == 2:
                c.check((last["variance"] * N) * N + S * S == sum([b * a * a for a, b in zip(xs2, ws2)]) * N, "window variance")
        yield Job("stat.sample.updateWindow " + "+".join(["count"] + fields), fn, setup, limit=300)

    T = rec("St", "x", "w", "count", "extra")
    TA = {"type": "array", "items": T}

    def o(c, x, w, st):
        if len(st) == 0:
            raise Err(14021)
        return st + [dict(st[-1], x=x, w=w, count=st[-1]["count"] + w)]
    yield F("stat.sample.updateWindow unrecognized field", {"x": D, "w": D, "st": TA}, TA, {"stat.sample.updateWindow": ["input.x", "input.w", "input.st", 5]}, o, B(arr=2))


def rng(v, code):
    if v < 0 or v > 1:
        raise Err(code)


def ewma():
    def o(c, x, a, st):
        rng(a, 14030)
        out = dict(st)
        out["mean"] = a * x + (1 - a) * st["mean"]
        if "variance" in st:
            out["variance"] = (1 - a) * (st["variance"] + a * (x - st["mean"]) * (x - st["mean"]))
        return out
    for fs in (["mean"], ["mean", "variance"], ["mean", ("tag", "int")]):
        T = rec("St", *fs)
        yield F("stat.sample.updateEWMA %d %s" % (len(fs), fs[-1]), {"x": D, "a": D, "st": T}, T, {"stat.sample.updateEWMA": ["input.x", "input.a", "input.st"]}, o)


def holt():
    def o(c, x, a, b, st):
        rng(a, 14040)
        rng(b, 14041)
        out = dict(st)
        out["level"] = a * x + (1 - a) * (st["level"] + st["trend"])
        out["trend"] = b * (out["level"] - st["level"]) + (1 - b) * st["trend"]
        return out
    T = rec("St", "level", "trend", ("tag", "int"))
    yield F("stat.sample.updateHoltWinters", {"x": D, "a": D, "b": D, "st": T}, T, {"stat.sample.updateHoltWinters": ["input.x", "input.a", "input.b", "input.st"]}, o)

    TP = rec("St", "level", "trend", ("cycle", AD), ("multiplicative", "boolean"))

    def op(c, x, a, b, g, st):
        rng(a, 14050)
        rng(b, 14051)
        rng(g, 14052)
        L = len(st["cycle"])
        if L == 0:
            raise Err(14053)
        rot = st["cycle"][1:] + st["cycle"][:1]     # the cycle turns once per datum; its head is the current phase
        s = rot[0]
        out = dict(st)
        if st["multiplicative"]:
            if s == 0:
                raise Err(SKIP)
            out["level"] = a * x / s + (1 - a) * (st["level"] + st["trend"])
            if out["level"] == 0:
                raise Err(SKIP)
            head = g * x / out["level"] + (1 - g) * s
        else:
            out["level"] = a * (x - s) + (1 - a) * (st["level"] + st["trend"])
            head = g * (x - out["level"]) + (1 - g) * s
        out["trend"] = b * (out["level"] - st["level"]) + (1 - b) * st["trend"]
        out["cycle"] = [head] + rot[1:]
        return out
    yield F("stat.sample.updateHoltWintersPeriodic", {"x": D, "a": D, "b": D, "g": D, "st": TP}, TP,
            {"stat.sample.updateHoltWintersPeriodic": ["input.x", "input.a", "input.b", "input.g", "input.st"]}, op, B(arr=2), limit=240)

    def f1(c, st):
        if "cycle" not in st:
            return st["level"] + st["trend"]
        L = len(st["cycle"])
        if L == 0:
            raise Err(14060)
        v = st["level"] + st["trend"]
        s = st["cycle"][1 % L]
        return v * s if st["multiplicative"] else v + s

    def fn_(c, n, st):
        out = []
        L = len(st["cycle"]) if "cycle" in st else None
        if L == 0:
            raise Err(14070)
        for i in range(1, (concretize(3, n) if n >= 0 else 0) + 1):
            v = st["level"] + i * st["trend"]
            if L:
                s = st["cycle"][i % L]
                v = v * s if st["multiplicative"] else v + s
            out.append(v)
        return out
    for T, nm in ((rec("St", "level", "trend"), "plain"), (TP, "periodic")):
        yield F("stat.sample.forecast1HoltWinters " + nm, {"st": T}, D, {"stat.sample.forecast1HoltWinters": ["input.st"]}, f1)
        yield F("stat.sample.forecastHoltWinters " + nm, {"n": "int", "st": T}, AD, {"stat.sample.forecastHoltWinters": ["input.n", "input.st"]}, fn_,
                gens={"n": lambda c, n: c.choice(n, [-2, 0, 1, 3])})


FLOWS = ["underflow", "overflow", "nanflow", "infflow"]


def bump(xs, i, w):
    return [v + w if k == i else v for k, v in enumerate(xs)]


def hist():
    def special(c, n):
        return c.double(n, (NAN, INF, -INF))

    def flows(st, out, w, which):
        for f in FLOWS:
            if f in st:
                out[f] = st[f] + w if f == which else st[f]
        return out

    def o0(c, x, w, st):
        n, lo, hi = st["numbins"], st["low"], st["high"]
        if n < 1:
            raise Err(14082)
        if len(st["values"]) != n:
            raise Err(14080)
        if lo >= hi:
            raise Err(14081)
        n = len(st["values"])
        out = dict(st)
        if "infflow" in st and (x == INF or x == -INF):
            return flows(st, out, w, "infflow")
        if x != x:
            return flows(st, out, w, "nanflow")
        if x >= hi:
            return flows(st, out, w, "overflow")
        if x < lo:
            return flows(st, out, w, "underflow")
        for i in range(n):
            if x < lo + (hi - lo) * (i + 1) / n:
                break
        out["values"] = bump(st["values"], i, w)
        return flows(st, out, w, None)

    def o1(c, x, w, st):
        lo, b = st["low"], st["binsize"]
        if b <= 0:
            raise Err(14082)
        out = dict(st)
        if "infflow" in st and (x == INF or x == -INF):
            return flows(st, out, w, "infflow")
        if x != x:
            return flows(st, out, w, "nanflow")
        if x == INF:
            return flows(st, out, w, "overflow")
        if x < lo:
            return flows(st, out, w, "underflow")
        vals = list(st["values"])
        for i in range(5):
            if x < lo + b * (i + 1):
                vals = vals + [0.0] * (i + 1 - len(vals))
                out["values"] = bump(vals, i, w)
                return flows(st, out, w, None)
        raise Err(SKIP)     # growth past five bins

    def o2(c, x, w, st):
        if len(st["values"]) != len(st["ranges"]):
            raise Err(14080)
        for r in st["ranges"]:
            if len(r) != 2:
                raise Err(14083)
            if r[0] >= r[1]:
                raise Err(14083)
        out = dict(st)
        if "infflow" in st and (x == INF or x == -INF):
            return flows(st, out, w, "infflow")
        if x != x:
            return flows(st, out, w, "nanflow")
        vals, hit = list(st["values"]), False
        for i, r in enumerate(st["ranges"]):
            if x >= r[0] and x < r[1]:
                vals[i] = vals[i] + w
                hit = True
        out["values"] = vals
        return flows(st, out, w, None if hit else "underflow")

    def ranges(c, n):
        k = c.choice(n + ".n", [0, 1, 2])
        out = []
        for i in range(k):
            m = c.choice("%s.%d.n" % (n, i), [2, 2, 1, 3] if i == 0 else [2])
            out.append([c.real("%s.%d.%d" % (n, i, j)) for j in range(m)])
        return out
    for fl in ([], ["underflow"], ["infflow", "overflow"], FLOWS):
        tag = "+".join(fl) or "no flows"

        def st0(c, n, fl=fl):
            k = c.choice(n + ".k", [0, 1, 3])
            s = {"numbins": c.choice(n + ".numbins", [-1, 0, 1, 3, 4]), "low": c.real(n + ".low"), "high": c.real(n + ".high"), "values": [c.real("%s.v%d" % (n, i)) for i in range(k)]}
            s.update((f, c.real(n + "." + f)) for f in fl)
            return s

        def st1(c, n, fl=fl):
            k = c.choice(n + ".k", [0, 1, 2])
            s = {"low": c.real(n + ".low"), "binsize": c.choice(n + ".binsize", [-1.0, 0.0, 0.5, 2.0]), "values": [c.real("%s.v%d" % (n, i)) for i in range(k)]}
            s.update((f, c.real(n + "." + f)) for f in fl)
            return s

        def st2(c, n, fl=fl):
            k = c.choice(n + ".k", [0, 1, 2])
            s = {"ranges": ranges(c, n + ".r"), "values": [c.real("%s.v%d" % (n, i)) for i in range(k)]}
            s.update((f, c.real(n + "." + f)) for f in fl)
            return s
        E = {"stat.sample.fillHistogram": ["input.x", "input.w", "input.st"]}
        T0 = rec("H", ("numbins", "int"), "low", "high", ("values", AD), *fl)
        yield F("stat.sample.fillHistogram range " + tag, {"x": D, "w": D, "st": T0}, T0, E, o0, gens={"x": special, "st": st0}, limit=240)
        T1 = rec("H", "low", "binsize", ("values", AD), *fl)

        def small(c, x, w, st):
            c.assume(c.or_(x != x, x == INF, x == -INF, x < st["low"] + 4 * st["binsize"]))
        yield F("stat.sample.fillHistogram growing " + tag, {"x": D, "w": D, "st": T1}, T1, E, o1, gens={"x": special, "st": st1}, pre=small, limit=240)
        T2 = rec("H", ("ranges", AAD), ("values", AD), *fl)
        yield F("stat.sample.fillHistogram ranges " + tag, {"x": D, "w": D, "st": T2}, T2, E, o2, gens={"x": special, "st": st2}, limit=240)


F2 = ["underunderflow", "undermidflow", "underoverflow", "midunderflow", "midoverflow", "overunderflow", "overmidflow", "overoverflow", "nanflow", "infflow"]


def hist2d():
    def special(c, n):
        return c.double(n, (NAN, INF, -INF))

    def pos(v, lo, hi, n):
        if v >= hi:
            return "over"
        if v < lo:
            return "under"
        for i in range(n):
            if v < lo + (hi - lo) * (i + 1) / n:
                return i

    def o(c, x, y, w, st):
        nx, ny = st["xnumbins"], st["ynumbins"]
        if nx < 1 or ny < 1:
            raise Err(14092)
        if len(st["values"]) != nx:
            raise Err(14090)
        for r in st["values"]:
            if len(r) != ny:
                raise Err(14090)
        if st["xlow"] >= st["xhigh"] or st["ylow"] >= st["yhigh"]:
            raise Err(14091)
        out = dict(st)
        if x != x or y != y:
            f = "nanflow"
        elif "infflow" in st and (x == INF or x == -INF or y == INF or y == -INF):
            f = "infflow"
        else:
            i, j = pos(x, st["xlow"], st["xhigh"], nx), pos(y, st["ylow"], st["yhigh"], ny)
            f = None
            if isinstance(i, str) or isinstance(j, str):
                f = (i if isinstance(i, str) else "mid") + (j if isinstance(j, str) else "mid") + "flow"
            else:
                out["values"] = [bump(r, j, w) if k == i else r for k, r in enumerate(st["values"])]
        if f in st:
            out[f] = st[f] + w
        return out
    for fl in ([], ["infflow", "midoverflow", "overmidflow"], F2):
        T = rec("H", ("xnumbins", "int"), "xlow", "xhigh", ("ynumbins", "int"), "ylow", "yhigh", ("values", AAD), *fl)

        def st(c, n, fl=fl):
            kx, ky, bad = c.choice(n + ".shape", [(2, 2, 2), (1, 3, 3), (2, 1, 2), (0, 0, 0)])
            nx, ny = c.choice(n + ".bins", [(2, 2), (1, 3), (0, 2), (2, 0)])
            s = {"xnumbins": nx, "ynumbins": ny, "xlow": c.real(n + ".xlow"), "xhigh": c.real(n + ".xhigh"), "ylow": c.real(n + ".ylow"), "yhigh": c.real(n + ".yhigh"),
                 "values": [[c.real("%s.v%d%d" % (n, i, j)) for j in range(bad if i == kx - 1 else ky)] for i in range(kx)]}
            s.update((f, c.real(n + "." + f)) for f in fl)
            return s
        yield F("stat.sample.fillHistogram2d " + ("%d flows" % len(fl)), {"x": D, "y": D, "w": D, "st": T}, T,
                {"stat.sample.fillHistogram2d": ["input.x", "input.y", "input.w", "input.st"]}, o, gens={"x": special, "y": special, "st": st}, limit=300)


def counters():
    T = rec("St", ("values", MD), ("tag", "int"))

    def o(c, x, w, st):
        vals = dict(st["values"])
        for k in "ab":
            if x == k:
                vals[k] = (vals[k] if k in vals else 0.0) + w
        return dict(st, values=vals)
    yield F("stat.sample.fillCounter", {"x": "string", "w": D, "st": T}, T, {"stat.sample.fillCounter": ["input.x", "input.w", "input.st"]}, o,
            B(keys="ab"), gens={"x": lambda c, n: c.choice(n, ["a", "b"])})

    A = {"type": "array", "items": "int"}

    def top(c, x, top, n):
        if n <= 0:
            return []
        i = 0
        while i < len(top) and not (top[i] < x):
            i += 1
        out = top[:i] + [x] + top[i:]
        for k in range(1, len(out) + 1):
            if n == k:
                return out[:k]
        return out
    yield F("stat.sample.topN", {"x": "int", "t": A, "n": "int"}, A,
            {"stat.sample.topN": ["input.x", "input.t", "input.n", {"params": [{"p": "int"}, {"q": "int"}], "ret": "boolean", "do": {"<": ["p", "q"]}}]}, top)
    HIST = rec("Tr", ("numEvents", "int"), ("numRuns", "int"), ("currentRun", "int"), ("longestRun", "int"), ("tag", "string"))


def change():
    names = ["numEvents", "numRuns", "currentRun", "longestRun"]
    T = rec("Tr", *[(n, "int") for n in names] + [("tag", "string")])

    def o(c, p, st):
        for n in names:
            if st[n] < 0:
                raise Err(37000)
        out = dict(st)
        if p:
            out["numEvents"] = st["numEvents"] + 1
            if st["currentRun"] == 0:
                out["numRuns"] = st["numRuns"] + 1
            out["currentRun"] = st["currentRun"] + 1
            if out["currentRun"] > st["longestRun"]:
                out["longestRun"] = out["currentRun"]
        else:
            out["currentRun"] = 0
        return out
    yield F("stat.change.updateTrigger", {"p": "boolean", "st": T}, T, {"stat.change.updateTrigger": ["input.p", "input.st"]}, o,
            pre=lambda c, p, st: c.assume(c.and_(*[st[n] < INT_MAX for n in names])))

    def z(c, x, st, unbiased=False):
        if st["variance"] <= 0:
            raise Err(SKIP)
        return (x - st["mean"]), st["variance"], (st["count"] if unbiased else None)

    def zcmp(c, got, want, label):
        c.observe(label, got)
        c.check(got[0] == "ok", label + ": succeeds")
        d, var, n = want[1]
        g = got[1]
        c.check(c.or_(c.and_(g >= 0, d >= 0), c.and_(g <= 0, d <= 0)), label + ": sign")
        if n is None:
            c.check(g * g * var == d * d, label + ": value")
        else:
            c.check(g * g * var * (n - 1) == d * d * n, label + ": value")
    TV = rec("St", "mean", "variance")
    yield F("stat.change.zValue", {"x": D, "st": TV}, D, {"stat.change.zValue": ["input.x", "input.st"]}, z, cmp=zcmp)
    TC = rec("St", "count", "mean", "variance")

    def zu(c, x, st, u):
        if st["count"] <= 1:
            raise Err(SKIP)
        return z(c, x, st, u)
    yield F("stat.change.zValue unbiased", {"x": D, "st": TC, "u": "boolean"}, D, {"stat.change.zValue": ["input.x", "input.st", "input.u"]}, zu, cmp=zcmp)

    def ends(c, got, want, label):
        c.check(got[0] == "ok", label + ": never fails")
        c.check(c.implies(want[1][0], got[1] != got[1]) if hasattr(c, "implies") else c.or_(c.not_(want[1][0]), got[1] != got[1]), label + ": undefined values are nan")
    yield F("stat.change.zValue degenerate counts", {"x": D, "n": D, "u": "boolean"}, D,
            {"stat.change.zValue": ["input.x", {"new": {"count": "input.n", "mean": 0.0, "variance": 1.0}, "type": TC}, "input.u"]},
            lambda c, x, n, u: (c.and_(u, n > 0, n < 1), 0), gens={"n": lambda c, n: c.choice(n, [-1.0, 0.0, 0.5, 1.0])}, cmp=ends)

    def cusum(c, l, last, reset):
        return l + last if l + last > reset else reset
    yield F("stat.change.updateCUSUM", {"l": D, "last": D, "reset": D}, D, {"stat.change.updateCUSUM": ["input.l", "input.last", "input.reset"]}, cusum)


def tests():
    b = B(arr=2, keys="ab")

    def res(c, o, p):
        if isinstance(o, dict):
            if sorted(o) != sorted(p):
                raise Err(38010)
            return dict((k, o[k] - p[k]) for k in o)
        if isinstance(o, list):
            if len(o) != len(p):
                raise Err(38010)
            return [x - y for x, y in zip(o, p)]
        return o - p

    def q(d, u):
        return d / u if u != 0 else NAN if d == 0 else INF if d > 0 else -INF

    def pull(c, o, p, u):
        if isinstance(o, dict):
            if sorted(o) != sorted(p):
                raise Err(38020)
            if sorted(o) != sorted(u):
                raise Err(38021)
            return dict((k, q(o[k] - p[k], u[k])) for k in o)
        if isinstance(o, list):
            if len(o) != len(p):
                raise Err(38020)
            if len(o) != len(u):
                raise Err(38021)
            return [q(x - y, z) for x, y, z in zip(o, p, u)]
        return q(o - p, u)
    S = rec("St", "chi2", ("dof", "int"), ("tag", "int"))

    def upd(c, p, st):
        v = [p[k] for k in p] if isinstance(p, dict) else p if isinstance(p, list) else [p]
        return dict(st, chi2=st["chi2"] + sum([x * x for x in v]), dof=st["dof"] + 1)
    small = lambda c, p, st: c.assume(st["dof"] < INT_MAX)
    for t, nm in ((D, "scalar"), (AD, "array"), (MD, "map")):
        yield F("stat.test.residual " + nm, {"o": t, "p": t}, t, {"stat.test.residual": ["input.o", "input.p"]}, res, b)
        yield F("stat.test.pull " + nm, {"o": t, "p": t, "u": t}, t, {"stat.test.pull": ["input.o", "input.p", "input.u"]}, pull, b if nm != "map" else B(keys="a"), limit=240)
        yield F("stat.test.updateChi2 " + nm, {"p": t, "st": S}, S, {"stat.test.updateChi2": ["input.p", "input.st"]}, upd, b, pre=small)
    yield F("stat.test.updateChi2 int datum", {"p": "int", "st": S}, S, {"stat.test.updateChi2": ["input.p", "input.st"]}, upd, b, pre=small, gens={"p": lambda c, n: c.int(n, -1000, 1000)})
    SR = rec("St", "chi2", ("dof", "int"))
    yield F("stat.test.reducedChi2", {"st": SR}, D, {"stat.test.reducedChi2": ["input.st"]}, lambda c, st: q(st["chi2"], st["dof"]),
            gens={"st": lambda c, n: {"chi2": c.real("chi2"), "dof": c.choice("dof", [-3, -1, 0, 1, 2, 7])}})

    def prob(c, st):
        if st["dof"] < 0:
            raise Err(38060)
        if st["dof"] == 0:
            return 1.0 if st["chi2"] > 0 else 0.0
        if st["chi2"] != st["chi2"]:
            return NAN
        if st["chi2"] == INF:
            return 1.0
        if st["chi2"] <= 0:
            return 0.0
        raise Err(SKIP)
    yield F("stat.test.chi2Prob edges", {"st": SR}, D, {"stat.test.chi2Prob": ["input.st"]}, prob,
            gens={"st": lambda c, n: {"chi2": c.double("chi2", (NAN, INF, -INF)), "dof": c.choice("dof", [-3, -1, 0, 1, 2, 3])}})

    def ks(c, x, y):
        same = sorted([v for v in x if v == v]) == sorted([v for v in y if v == v])
        return 1.0 if same else None

    def kscmp(c, got, want, label):
        c.check(got[0] == "ok", label + ": succeeds")
        c.check(c.and_(got[1] >= -1e-9, got[1] <= 1 + 1e-9), label + ": a probability")
        if want[1] is not None:
            c.check(got[1] == 1, label + ": equal samples")
    def kolm(z):
        return max(0.0, min(1.0, 2 * sum([(-1) ** (k - 1) * math.exp(-2.0 * k * k * z * z) for k in range(1, 200)])))

    def ksd(c, x, y):
        d = 0.0
        for v in x + y:
            a = sum([1 for u in x if u <= v]) / len(x)
            b = sum([1 for u in y if u <= v]) / len(y)
            d = max(d, abs(a - b))
        en = math.sqrt(len(x) * len(y) / (len(x) + len(y)))
        return kolm((en + 0.12 + 0.11 / en) * d)

    def distinct(c, x, y):
        z = x + y
        c.assume(c.and_(*[z[i] != z[j] for i in range(len(z)) for j in range(i)]))

    def close(c, got, want, label):
        c.check(got[0] == "ok", label + ": succeeds")
        c.check(c.and_(got[1] >= want[1] - 1e-6, got[1] <= want[1] + 1e-6), label + ": value")
    yield F("stat.test.kolmogorov distinct", {"x": AD, "y": AD}, D, {"stat.test.kolmogorov": ["input.x", "input.y"]}, ksd, B(lens=[1, 2]), pre=distinct, cmp=close)
    pool = [1.0, 2.0, 3.0, NAN]
    yield F("stat.test.kolmogorov", {"x": AD, "y": AD}, D, {"stat.test.kolmogorov": ["input.x", "input.y"]}, ks, cmp=kscmp,
            gens={"x": lambda c, n: [c.choice(n + str(i), pool) for i in range(c.choice(n, [0, 1, 2]))],
                  "y": lambda c, n: [c.choice(n + str(i), pool[:2]) for i in range(c.choice(n, [0, 1, 3]))]})


def jobs(tier):
    for fs in ([], ["mean"], ["mean", "variance"]):
        yield update(fs)
    for f in (covariance, window, ewma, holt, hist, hist2d, counters, change, tests):
        for j in f():
            yield j
