"""C29 random functions (titus/lib/rand.py): the generator is replaced by one that may return anything its interface permits."""
import math

from harness.lib import *
from harness.bytesenum import codes

REC = {"type": "record", "name": "Bin", "fields": [{"name": "prob", "type": "double"}, {"name": "label", "type": "int"}]}
BINS = {"type": "array", "items": REC}
A = lambda t: {"type": "array", "items": t}
SUR = 0xD800


def support(c, rnd, n, what):
    """Enough different outcomes of the generator were asked for to reach n different results."""
    if rnd.cont:
        return
    c.check(rnd.total >= n, what + ": every allowed result can be drawn")


def job(name, params, ret, expr, judge, gens=None, b=None, **kw):
    """judge(c, rnd, outcome, *fields)"""
    bb = b or B()

    def setup():
        return fn_engine(params, ret, expr)

    def fn(c, env):
        vals = {}
        for n, t in params.items():
            vals[n] = gens[n](c, n) if gens and n in gens else gen(c, n, t, bb)
        before = copy_tree(vals)
        rnd = Rnd(c)
        env.e.rand = rnd
        got = act(env, vals)
        judge(c, rnd, got, *[before[n] for n in params])
        if got[0] == "ok":
            c.check(conforms(c, ret, got[1]), name + ": result conforms to its type")
        c.check(c.same(vals, before), name + ": inputs unmodified")
    return Job(name, fn, setup, **kw)


def fails(c, got, code, name):
    c.check(got == ("err", code), "%s: error %d expected, got %s" % (name, code, got[0] if got[0] == "ok" else got[1]))


def bounded(name, base, integer):
    def judge(c, rnd, got, low, high):
        if high <= low:
            return fails(c, got, base, name)
        if got[0] != "ok":
            return c.fail(name + ": unexpected error %s" % (got[1],))
        r = got[1]
        c.check(c.and_(r >= low, r < high if integer else r <= high), name + ": within its bounds")
        if integer:
            support(c, rnd, high - low, name)
    return judge


def unbounded(name, lo, hi):
    def judge(c, rnd, got, *rest):
        c.check(got[0] == "ok", name + ": no error")
        c.check(c.and_(got[1] >= lo, got[1] <= hi), name + ": a value of its type")
        support(c, rnd, hi - lo + 1, name)
    return judge


def member(c, x, xs):
    return c.or_(*[c.same(x, y) for y in xs]) if xs else False


def choice(c, rnd, got, pop):
    if len(pop) == 0:
        return fails(c, got, 34040, "choice")
    c.check(got[0] == "ok", "choice: no error")
    c.check(member(c, got[1], pop), "choice: a member of the population")
    support(c, rnd, len(pop), "choice")


def choices(c, rnd, got, size, pop):
    if len(pop) == 0:
        return fails(c, got, 34050, "choices")
    c.check(got[0] == "ok", "choices: no error")
    n = max(size, 0)
    c.check(len(got[1]) == n, "choices: as many as asked for")
    for x in got[1]:
        c.check(member(c, x, pop), "choices: members of the population")
    support(c, rnd, len(pop) ** n, "choices")


def sample(c, rnd, got, size, pop):
    if len(pop) == 0:
        return fails(c, got, 34060, "sample")
    if size > len(pop):
        return fails(c, got, 34061, "sample")
    if got[0] != "ok":
        return c.fail("sample: unexpected error %s" % (got[1],))
    n = max(size, 0)
    c.check(len(got[1]) == n, "sample: as many as asked for")
    # without replacement: no value occurs more often than in the population
    for x in got[1]:
        mine = sum([c.ite(c.same(x, y), 1, 0) for y in got[1]])
        theirs = sum([c.ite(c.same(x, y), 1, 0) for y in pop])
        c.check(mine <= theirs, "sample: drawn without replacement")
    ways = 1
    for i in range(n):
        ways *= len(pop) - i
    for i in range(n):
        ways //= i + 1
    support(c, rnd, ways, "sample")


def histogram(rec):
    def judge(c, rnd, got, dist):
        ps = [x["prob"] for x in dist] if rec else list(dist)
        for p in ps:
            if p != p or p in (float("inf"), float("-inf")):
                return fails(c, got, 34071, "histogram")
            if p < 0:
                return fails(c, got, 34072, "histogram")
        if sum(ps, 0.0) == 0.0:
            return fails(c, got, 34070, "histogram")
        if got[0] != "ok":
            return c.fail("histogram: unexpected error %s" % (got[1],))
        if rec:
            c.check(c.or_(*[c.and_(c.same(got[1], x), x["prob"] > 0) for x in dist]), "histogram: a bin of positive weight")
        else:
            c.check(c.or_(*[c.and_(got[1] == i, p > 0) for i, p in enumerate(ps)]), "histogram: a bin of positive weight")
            total = sum(ps, 0.0)
            for i, p in enumerate(ps):
                c.check(c.or_(c.not_(p == total), got[1] == i), "histogram: the only bin of positive weight is certain")
            if len(rnd.base) == 1 and rnd.cont:
                # bins laid out in order: the draw u selects the bin whose share of [0, 1) contains it
                u, lo = rnd.base[0] * total, 0.0
                for i, p in enumerate(ps):
                    c.check(c.or_(c.not_(c.and_(u > lo, u < lo + p)), got[1] == i), "histogram: bins get their share")
                    lo = lo + p
    return judge


def edge_dist():
    """floating point edges: totals that overflow or cannot be divided"""
    H = [1e308, 1e308]
    ds = [[5e-324], [0.0, 5e-324], [5e-324, 0.0], H, [1e308, 0.0, 1.5e308], [1.0, 0.0], [0.1, 0.2, 0.3], [1e16, 1.0], [1.0, 1e16, 0.0]]

    def setup():
        class Es(object):
            pass
        e = Es()
        e.i = fn_engine({"d": A("double")}, "int", {"rand.histogram": ["input.d"]})
        e.r = fn_engine({"d": BINS}, REC, {"rand.histogram": ["input.d"]})
        return e

    def fn(c, env):
        d = c.choice("distribution", ds)
        u = c.choice("draw", [0.0, 0.25, 0.5, 0.75, 1 - 2.0 ** -53])
        rec = c.choice("records", [False, True])
        e = env.r if rec else env.i

        class R(object):
            def random(self):
                return u

            def uniform(self, a, b):
                return a + (b - a) * u
        e.e.rand = R()
        x = {"d": [{"prob": p, "label": i} for i, p in enumerate(d)] if rec else list(d)}
        got = act(e, x)
        if math.isinf(sum(d)):
            return c.check(got == ("err", 34071), "histogram: a total that is not finite is refused, got %r" % (got,))
        c.check(got[0] == "ok", "histogram edge: no error, got %r" % (got,))
        i = got[1]["label"] if rec and got[1] is not None else got[1]
        c.check(i is not None and d[i] > 0, "histogram edge: a bin of positive weight, got %r" % (got,))
    return Job("histogram edges", fn, setup, bound="nine distributions at the edge of double precision, five draws")


def text(name, form, base, byt):
    """form: none, pop, range"""
    top = 256 if byt else SUR

    def chars(r):
        return codes(r) if byt else [ord(ch) for ch in r]

    def judge(c, rnd, got, size, *args):
        if size <= 0:
            return fails(c, got, base, name)
        if form == "pop":
            pop, = args
            if len(pop) == 0:
                return fails(c, got, base + 3, name)
        elif form == "range":
            low, high = args
            if high <= low:
                return fails(c, got, base + 1, name)
            least = 0 if byt else 1
            if c.or_(low < least, low >= top if byt else low > top, high < least, high > top):
                return fails(c, got, base + 2, name)
        if got[0] != "ok":
            return c.fail(name + ": unexpected error %s" % (got[1],))
        r = chars(got[1])
        c.check(len(r) == size, name + ": length")
        if form == "pop":
            ps = chars(pop)
            for k in r:
                c.check(c.or_(*[k == p for p in ps]), name + ": only characters of the population")
            support(c, rnd, len(ps) ** size, name)
        else:
            lo, hi = (args if form == "range" else ((0, 256) if byt else (1, SUR)))
            for k in r:
                c.check(c.and_(k >= lo, k < hi), name + ": only characters in the range")
            n = 1
            for _ in range(size):
                n = n * (hi - lo)
            support(c, rnd, n, name)
    return judge


def uuid(name):
    def setup():
        return fn_engine({"x": "int"}, "string", {"rand." + name: []})

    def fn(c, env):
        class Bits(object):
            k = 0
            total = 1

            def getrandbits(self, k):
                self.k += 1
                self.total *= 1 << k
                return c.choice("bits%d" % self.k, [0, 1, (1 << k) - 1, 1 << (k - 1), 0x123456789abcdef & ((1 << k) - 1)])
        rnd = Bits()
        env.e.rand = rnd
        got = act(env, {"x": 0})
        c.check(got[0] == "ok", name + ": no error")
        r = got[1]
        parts = r.split("-")
        c.check(all(ch in "0123456789abcdef-" for ch in r), name + ": lower case hexadecimal digits")
        c.check([len(p) for p in parts[:4]] == [8, 4, 4, 4] and len(parts) == 5, name + ": groups of 8, 4, 4, 4 digits")
        c.check(parts[2][0] == "4", name + ": version 4")
        c.check(parts[3][0] in "89ab", name + ": RFC 4122 variant")
        c.check(rnd.total >= 1 << 120, name + ": drawn from enough random bits")
        if len(parts[4]) == 16 and c.known("uuid-length", True):
            return
        c.check(len(parts[4]) == 12, name + ": a last group of 12 digits")
    return Job(name, fn, setup, bound="five bit patterns per draw")


def gauss():
    def judge(c, rnd, got, mu, sigma):
        c.check(got[0] == "ok", "gaussian: no error")
        z = rnd.base[0]
        c.check(c.eq(got[1], mu + sigma * z), "gaussian: mean and width")
    return job("gaussian", {"mu": "double", "sigma": "double"}, "double", {"rand.gaussian": ["input.mu", "input.sigma"]}, judge)


def jobs(tier):
    deep = tier == "thorough"
    n = 5 if deep else 3
    out = []
    out.append(job("int", {"x": "null"}, "int", {"rand.int": []}, unbounded("int", -2 ** 31, 2 ** 31 - 1)))
    out.append(job("long", {"x": "null"}, "long", {"rand.long": []}, unbounded("long", -2 ** 63, 2 ** 63 - 1)))
    for t, base in [("int", 34000), ("long", 34010), ("float", 34020), ("double", 34030)]:
        out.append(job(t + " bounds", {"low": t, "high": t}, t, {"rand." + t: ["input.low", "input.high"]}, bounded(t, base, t in ("int", "long")),
                       bound="all pairs of bounds" + ("" if t in ("int", "long") else " (exact real arithmetic)")))
    size = lambda hi: (lambda c, nm: c.int(nm, -2, hi))
    for t in ("int", "string"):
        bb = B(arr=n, slen=1)
        out.append(job("choice " + t, {"p": A(t)}, t, {"rand.choice": ["input.p"]}, choice, b=bb, bound="populations up to %d" % n))
        out.append(job("choices " + t, {"n": "int", "p": A(t)}, A(t), {"rand.choices": ["input.n", "input.p"]}, choices, gens={"n": size(n)}, b=bb, bound="sizes -2 to %d" % n))
        out.append(job("sample " + t, {"n": "int", "p": A(t)}, A(t), {"rand.sample": ["input.n", "input.p"]}, sample, gens={"n": size(n + 1)}, b=bb, bound="sizes -2 to %d" % (n + 1)))
    special = lambda c, nm: [c.double("%s%d" % (nm, i)) for i in range(c.choice(nm + "len", list(range(n + 1))))]
    specrec = lambda c, nm: [{"prob": c.double("%s%d" % (nm, i)), "label": c.int("%sl%d" % (nm, i))} for i in range(c.choice(nm + "len", list(range(n + 1))))]
    out.append(job("histogram", {"d": A("double")}, "int", {"rand.histogram": ["input.d"]}, histogram(False), gens={"d": special}, bound="up to %d bins" % n))
    out.append(job("histogram records", {"d": BINS}, REC, {"rand.histogram": ["input.d"]}, histogram(True), gens={"d": specrec}, bound="up to %d bins" % n))
    out.append(edge_dist())
    k = 3 if deep else 2
    sz = size(k)
    for nm, t, base in [("string", "string", 34080), ("bytes", "bytes", 34090)]:
        byt = t == "bytes"
        f = "rand." + nm
        out.append(job(nm, {"n": "int"}, t, {f: ["input.n"]}, text(nm, "none", base, byt), gens={"n": sz}))
        out.append(job(nm + " population", {"n": "int", "p": t}, t, {f: ["input.n", "input.p"]}, text(nm, "pop", base, byt), gens={"n": sz}, b=B(slen=n)))
        out.append(job(nm + " range", {"n": "int", "low": "int", "high": "int"}, t, {f: ["input.n", "input.low", "input.high"]}, text(nm, "range", base, byt), gens={"n": sz}))
    out.append(uuid("uuid4"))
    out.append(gauss())
    return out
