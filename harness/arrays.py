"""Array library a.* without function arguments (lib/array.py)."""
import itertools
import math

from harness.lib import *

AI, AD, AS = {"type": "array", "items": "int"}, {"type": "array", "items": "double"}, {"type": "array", "items": "string"}
AL, AF = {"type": "array", "items": "long"}, {"type": "array", "items": "float"}
AAI = {"type": "array", "items": AI}
NAN, INF = float("nan"), float("inf")


def norm(n, i):
    """Absolute index denoted by i in an array of length n (negative counts from the end)."""
    return i + n if i < 0 else i


def clamp(n, i):
    i = norm(n, i)
    return 0 if i < 0 else n if i > n else i


def concretize(n, i):
    """i is between -1 and n (symbolic): the concrete value."""
    for k in range(n + 1):
        if i == k:
            return k
    return None


def span(n, start, end):
    """Concrete [lo, hi) designated by start:end."""
    lo = concretize(n, clamp(n, start))
    hi = concretize(n, clamp(n, end))
    return lo, max(lo, hi)


def subseq(c, a, start, end):
    lo, hi = span(len(a), start, end)
    return [a[i] for i in range(lo, hi)]


def need(a, code):
    if len(a) == 0:
        raise Err(code)


def at(a, i, code):
    """concrete in-range index or the documented error"""
    n = len(a)
    i = norm(n, i)
    if i < 0 or i >= n:
        raise Err(code)
    return concretize(n, i)


def has(xs, v):
    for x in xs:
        if x == v:
            return True
    return False


def matches(a, needle):
    """all positions where needle occurs contiguously"""
    k = len(needle)
    out = []
    for s in range(len(a) - k + 1):
        ok = True
        for j in range(k):
            if a[s + j] != needle[j]:
                ok = False
                break
        if ok:
            out.append(s)
    return out


def ranked(a, lt):
    """indices of a from best to worst: stable selection (lt(x, y): x is before y)."""
    out = []
    for i in range(len(a)):
        k = len(out)
        while k > 0 and lt(a[i], a[out[k - 1]]):
            k -= 1
        out.insert(k, i)
    return out


def up(x, y):
    return x < y


def down(x, y):
    return y < x


def take(xs, n):
    """first n (symbolic, >= 0) of a concrete list"""
    for k in range(len(xs)):
        if n == k:
            return xs[:k]
    return xs


def extremes(name, base, lt, arg):
    yield F("a." + name, {"a": AI}, "int", {"a." + name: ["input.a"]},
            lambda c, a: need(a, base) or (ranked(a, lt)[0] if arg else a[ranked(a, lt)[0]]))


def extremeN(name, base, lt, arg):
    def f(c, a, n):
        need(a, base)
        if n < 0:
            raise Err(base + 1)
        r = take(ranked(a, lt), n)
        return r if arg else [a[i] for i in r]
    return F("a." + name, {"a": AI, "n": "int"}, AI, {"a." + name: ["input.a", "input.n"]}, f)


def lessmod(lt):
    """a weak order that ignores the least significant part: |x| compared (ties are distinct values)"""
    return lambda x, y: lt(abs(x), abs(y))


def ltfcn():
    return {"params": [{"x": "int"}, {"y": "int"}], "ret": "boolean", "do": {"<": [{"m.abs": "x"}, {"m.abs": "y"}]}}


def mid(c, n):
    return c.int(n, -1000000, 1000000)


def midarr(lens):
    return lambda c, n: [c.int("%s.%d" % (n, i), -1000000, 1000000) for i in range(c.choice(n + ".len", lens))]


def extremeLT(name, base, lt, arg, n):
    def f(c, a, *rest):
        need(a, base)
        if n:
            if rest[0] < 0:
                raise Err(base + 1)
        r = ranked(a, lessmod(lt))
        if n:
            r = take(r, rest[0])
            return r if arg else [a[i] for i in r]
        return r[0] if arg else a[r[0]]
    ps = {"a": AI}
    args = ["input.a"]
    if n:
        ps["n"] = "int"
        args.append("input.n")
    return F("a." + name, ps, AI if n else "int", {"a." + name: args + [ltfcn()]}, f, gens={"a": midarr([0, 1, 2, 3])})


def total(t, code):
    lo, hi = {"int": (INT_MIN, INT_MAX), "long": (LONG_MIN, LONG_MAX)}.get(t, (None, None))

    def f(c, a, mul=False):
        s = 1 if mul else 0
        for x in a:
            s = s * x if mul else s + x
        if lo is not None and c.or_(s < lo, s > hi):
            raise Err(code + (0 if t == "int" else 1))
        return s
    return f


def median(c, a, t):
    need(a, 15450)
    s = [a[i] for i in ranked(a, up)]
    n = len(s)
    if n % 2:
        return s[n // 2]
    if t in ("float", "double"):
        return (s[n // 2 - 1] + s[n // 2]) / 2
    return s[n // 2 - 1]


def mode(c, a):
    need(a, 15470)
    best, bests = 0, []
    for i, x in enumerate(a):
        if has(a[:i], x):
            continue
        k = 0
        for y in a:
            if x == y:
                k += 1
        if k > best:
            best, bests = k, [x]
        elif k == best:
            bests.append(x)
    return median(c, bests, "int")


def ntile(c, a, p, t):
    need(a, 15460)
    if p != p:
        raise Err(15461)
    s = [a[i] for i in ranked(a, up)]
    if p <= 0:
        return s[0]
    if p >= 1:
        return s[-1]
    k = (len(s) - 1) * p
    for lo in range(len(s)):
        if c.and_(k >= lo, k < lo + 1):
            if t in ("float", "double"):
                if lo + 1 == len(s):
                    return s[lo]
                return s[lo] + (s[lo + 1] - s[lo]) * (k - lo)
            return s[lo]


def lnsum(c, a):
    tot = 0.0
    for x in a:
        if x < 0:
            tot = NAN
    if tot == tot:
        for x in a:
            if x == 0:
                tot = -INF
    if tot != 0.0:
        return tot
    for x in a:
        tot = tot + math.log(x)
    return tot


def mean(c, a):
    if len(a) == 0:
        return NAN
    s = 0
    for x in a:
        s = s + x
    return s / len(a)


def windows(c, a, size, step):
    if size < 1:
        raise Err(15770)
    if step < 1:
        raise Err(15771)
    n = len(a)
    out = []
    if size > n:
        return out
    size = concretize(n, size)
    step = n + 1 if step > n else concretize(n, step)
    s = 0
    while s + size <= n:
        out.append(a[s:s + size])
        s += step
    return out


def choose(a, k):
    if k == 0:
        return [[]]
    out = []
    for i in range(len(a)):
        for rest in choose(a[i + 1:], k - 1):
            out.append([a[i]] + rest)
    return out


def combos(c, a, size):
    if size < 1:
        raise Err(15780)
    if size > len(a):
        return []
    return choose(a, concretize(len(a), size))


def perms(a):
    if not a:
        return [[]]
    out = []
    for i in range(len(a)):
        for rest in perms(a[:i] + a[i + 1:]):
            out.append([a[i]] + rest)
    return out


def rotate(c, a, steps):
    if steps < 0:
        raise Err(15190)
    n = len(a)
    if n == 0:
        return []
    k = steps % n
    k = concretize(n, k)
    return a[k:] + a[:k]


def cycle(c, a, item, m):
    if m < 0:
        raise Err(15150)
    out = a + [item]
    if m >= len(out):
        return out
    m = concretize(len(out), m)
    return out[len(out) - m:]


def distinct(a):
    out = []
    for x in a:
        if not has(out, x):
            out.append(x)
    return out


def setcmp(name, expect):
    """Judge set-producing functions up to order (and, where allowed, repetition)."""
    def cmp(c, got, want, label):
        c.check(got[0] == want[0], label + ": outcome kind")
        if got[0] == "ok" and want[0] == "ok":
            c.observe(label, got[1])
            for x in got[1]:
                c.check(has(want[1], x), label + ": every element belongs")
            for x in want[1]:
                c.check(has(got[1], x), label + ": no element is missing")
            if expect:
                for i, x in enumerate(got[1]):
                    c.check(c.not_(has(got[1][:i], x)), label + ": no element repeated")
    return cmp


def logsumexp(c, a):
    if len(a) == 0:
        return NAN
    m = a[0]
    for x in a:
        if x > m:
            m = x
    s = 0.0
    for x in a:
        s = s + math.exp(x - m)
    return math.log(s) + m


def uniq(a):
    out = []
    for x in a:
        out.append(x)
    return out


def jobs(tier):
    A = {"a": AI}
    deep = B(arr=5 if tier == "thorough" else 4)
    N = 5 if tier == "thorough" else 4
    I = lambda *xs: ["input." + x for x in xs]
    yield F("a.len", A, "int", {"a.len": I("a")}, lambda c, a: len(a))
    yield F("a.subseq", {"a": AI, "s": "int", "e": "int"}, AI, {"a.subseq": I("a", "s", "e")}, subseq, b=deep)
    yield F("a.head", A, "int", {"a.head": I("a")}, lambda c, a: need(a, 15020) or a[0])
    yield F("a.tail", A, AI, {"a.tail": I("a")}, lambda c, a: need(a, 15030) or a[1:])
    yield F("a.last", A, "int", {"a.last": I("a")}, lambda c, a: need(a, 15040) or a[-1])
    yield F("a.init", A, AI, {"a.init": I("a")}, lambda c, a: need(a, 15050) or a[:-1])

    def subseqto(c, a, s, e, r):
        lo, hi = span(len(a), s, e)
        return a[:lo] + r + a[hi:]
    yield F("a.subseqto", {"a": AI, "s": "int", "e": "int", "r": AI}, AI, {"a.subseqto": I("a", "s", "e", "r")}, subseqto, b=B(arr=3))
    HN, HX = {"h": AI, "n": AI}, {"h": AI, "n": "int"}
    b4 = B(arr=N)
    g = {"n": lambda c, n: gen(c, n, AI, B(arr=2))}
    yield F("a.contains seq", HN, "boolean", {"a.contains": I("h", "n")}, lambda c, h, n: bool(matches(h, n)), b=b4, gens=g)
    yield F("a.contains item", HX, "boolean", {"a.contains": I("h", "n")}, lambda c, h, n: has(h, n), b=b4)
    yield F("a.count seq", HN, "int", {"a.count": I("h", "n")}, lambda c, h, n: 0 if not n else len(matches(h, n)), b=b4, gens=g)
    yield F("a.count item", HX, "int", {"a.count": I("h", "n")}, lambda c, h, n: len(matches(h, [n])), b=b4)
    yield F("a.index seq", HN, "int", {"a.index": I("h", "n")}, lambda c, h, n: (matches(h, n) + [-1])[0], b=b4, gens=g)
    yield F("a.index item", HX, "int", {"a.index": I("h", "n")}, lambda c, h, n: (matches(h, [n]) + [-1])[0], b=b4)
    yield F("a.rindex seq", HN, "int", {"a.rindex": I("h", "n")}, lambda c, h, n: ([-1] + matches(h, n))[-1], b=b4, gens=g)
    yield F("a.rindex item", HX, "int", {"a.rindex": I("h", "n")}, lambda c, h, n: ([-1] + matches(h, [n]))[-1], b=b4)
    yield F("a.startswith seq", HN, "boolean", {"a.startswith": I("h", "n")}, lambda c, h, n: 0 in matches(h, n), b=b4, gens=g)
    yield F("a.startswith item", HX, "boolean", {"a.startswith": I("h", "n")}, lambda c, h, n: 0 in matches(h, [n]), b=b4)
    yield F("a.endswith seq", HN, "boolean", {"a.endswith": I("h", "n")}, lambda c, h, n: len(h) - len(n) in matches(h, n), b=b4, gens=g)
    yield F("a.endswith item", HX, "boolean", {"a.endswith": I("h", "n")}, lambda c, h, n: len(h) - 1 in matches(h, [n]), b=b4)
    pred = {"params": [{"x": "int"}], "ret": "boolean", "do": {"<": ["x", 0]}}

    def neg(h):
        return [i for i, x in enumerate(h) if x < 0]
    H = {"h": AI}
    yield F("a.contains fcn", H, "boolean", {"a.contains": ["input.h", pred]}, lambda c, h: bool(neg(h)), b=b4)
    yield F("a.count fcn", H, "int", {"a.count": ["input.h", pred]}, lambda c, h: len(neg(h)), b=b4)
    yield F("a.index fcn", H, "int", {"a.index": ["input.h", pred]}, lambda c, h: (neg(h) + [-1])[0], b=b4)
    yield F("a.rindex fcn", H, "int", {"a.rindex": ["input.h", pred]}, lambda c, h: ([-1] + neg(h))[-1], b=b4)
    # items that are themselves arrays
    nest = B(arr=2)
    HA = {"h": AAI, "n": AAI}
    yield F("a.contains nested", HA, "boolean", {"a.contains": I("h", "n")}, lambda c, h, n: bool(matches(h, n)), b=nest, gens={"n": lambda c, n: gen(c, n, AAI, B(arr=1))})
    yield F("a.count nested", HA, "int", {"a.count": I("h", "n")}, lambda c, h, n: 0 if not n else len(matches(h, n)), b=nest, gens={"n": lambda c, n: gen(c, n, AAI, B(arr=1))})
    # manipulation
    yield F("a.concat", {"a": AI, "b": AI}, AI, {"a.concat": I("a", "b")}, lambda c, a, b: a + b)
    yield F("a.append", {"a": AI, "x": "int"}, AI, {"a.append": I("a", "x")}, lambda c, a, x: a + [x])
    yield F("a.cycle", {"a": AI, "x": "int", "m": "int"}, AI, {"a.cycle": I("a", "x", "m")}, cycle)

    def insert(c, a, i, x):
        k = at(a, i, 15160)
        return a[:k] + [x] + a[k:]

    def repl(c, a, i, x):
        k = at(a, i, 15170)
        return a[:k] + [x] + a[k + 1:]

    def rem1(c, a, i):
        k = at(a, i, 15180)
        return a[:k] + a[k + 1:]

    def rem2(c, a, s, e):
        lo, hi = span(len(a), s, e)
        return a[:lo] + a[hi:]
    yield F("a.insert", {"a": AI, "i": "int", "x": "int"}, AI, {"a.insert": I("a", "i", "x")}, insert)
    yield F("a.replace", {"a": AI, "i": "int", "x": "int"}, AI, {"a.replace": I("a", "i", "x")}, repl)
    yield F("a.remove index", {"a": AI, "i": "int"}, AI, {"a.remove": I("a", "i")}, rem1)
    yield F("a.remove range", {"a": AI, "s": "int", "e": "int"}, AI, {"a.remove": I("a", "s", "e")}, rem2, b=deep)
    yield F("a.rotate", {"a": AI, "s": "int"}, AI, {"a.rotate": I("a", "s")}, rotate, b=deep)
    for t in ("int", "double", "string"):
        yield F("a.sort " + t, {"a": {"type": "array", "items": t}}, {"type": "array", "items": t}, {"a.sort": I("a")},
                lambda c, a: [a[i] for i in ranked(a, up)], b=B(arr=N if t == "int" else 3, slen=1))
    yield F("a.sortLT", A, AI, {"a.sortLT": ["input.a", ltfcn()]}, lambda c, a: [a[i] for i in ranked(a, lessmod(up))], gens={"a": midarr([0, 1, 2, 3, 4])})
    yield F("a.reverse", A, AI, {"a.reverse": I("a")}, lambda c, a: [a[len(a) - 1 - i] for i in range(len(a))], b=deep)
    # shuffle is a permutation
    def permcmp(c, got, want, label):
        c.observe(label, got)
        c.check(got[0] == "ok" and len(got[1]) == len(want[1]), label + ": same number of items")
        for x in want[1]:
            c.check(len(matches(got[1], [x])) == len(matches(want[1], [x])), label + ": is a permutation")
    yield F("a.shuffle", A, AI, {"a.shuffle": I("a")}, lambda c, a: a, cmp=permcmp)
    # extremes
    for nm, base, lt, arg in (("max", 15240, down, False), ("min", 15250, up, False), ("argmax", 15320, down, True), ("argmin", 15330, up, True)):
        for j in extremes(nm, base, lt, arg):
            yield j
    for nm, base, lt, arg in (("maxN", 15280, down, False), ("minN", 15290, up, False), ("argmaxN", 15360, down, True), ("argminN", 15370, up, True)):
        yield extremeN(nm, base, lt, arg)
    for nm, base, lt, arg, n in (("maxLT", 15260, down, False, 0), ("minLT", 15270, up, False, 0), ("argmaxLT", 15340, down, True, 0), ("argminLT", 15350, up, True, 0),
                                 ("maxNLT", 15300, down, False, 1), ("minNLT", 15310, up, False, 1), ("argmaxNLT", 15380, down, True, 1), ("argminNLT", 15390, up, True, 1)):
        yield extremeLT(nm, base, lt, arg, n)
    # numerical
    for t in ("int", "long", "float", "double"):
        at_ = {"type": "array", "items": t}
        yield F("a.sum " + t, {"a": at_}, t, {"a.sum": I("a")}, total(t, 15400))
        yield F("a.product " + t, {"a": at_}, t, {"a.product": I("a")}, lambda c, a, f=total(t, 15410): f(c, a, True), b=B(arr=2 if t in ("int", "long") else 3))
        yield F("a.median " + t, {"a": at_}, t, {"a.median": I("a")}, lambda c, a, t=t: median(c, a, t), b=B(arr=4))
        yield F("a.ntile " + t, {"a": at_, "p": "double"}, t, {"a.ntile": I("a", "p")}, lambda c, a, p, t=t: ntile(c, a, p, t), b=B(arr=4, lens=[0, 1, 2, 3] if t != "int" else [0, 2, 3, 4]),
                gens={"p": lambda c, n: c.double(n, ("nan", "inf", "-inf"))}, qms=20000)
    yield F("a.lnsum", {"a": AD}, "double", {"a.lnsum": I("a")}, lnsum)
    yield F("a.mean", {"a": AD}, "double", {"a.mean": I("a")}, mean)
    yield F("a.mode", A, "int", {"a.mode": I("a")}, mode, b=B(arr=4))
    yield F("a.logsumexp", {"a": AD}, "double", {"a.logsumexp": I("a")}, logsumexp)
    # sets
    yield F("a.distinct", A, AI, {"a.distinct": I("a")}, lambda c, a: distinct(a), b=deep)
    AB = {"a": AI, "b": AI}
    yield F("a.seteq", AB, "boolean", {"a.seteq": I("a", "b")}, lambda c, a, b: all([has(b, x) for x in a]) and all([has(a, x) for x in b]))
    yield F("a.subset", AB, "boolean", {"a.subset": I("a", "b")}, lambda c, a, b: all([has(b, x) for x in a]))
    yield F("a.disjoint", AB, "boolean", {"a.disjoint": I("a", "b")}, lambda c, a, b: not any([has(b, x) for x in a]))
    yield F("a.union", AB, AI, {"a.union": I("a", "b")}, lambda c, a, b: distinct(a + b), cmp=setcmp("u", True))
    yield F("a.intersection", AB, AI, {"a.intersection": I("a", "b")}, lambda c, a, b: [x for x in distinct(a) if has(b, x)], cmp=setcmp("i", False))
    yield F("a.diff", AB, AI, {"a.diff": I("a", "b")}, lambda c, a, b: [x for x in a if not has(b, x)], cmp=setcmp("d", False))
    yield F("a.symdiff", AB, AI, {"a.symdiff": I("a", "b")}, lambda c, a, b: [x for x in a if not has(b, x)] + [x for x in b if not has(a, x)], cmp=setcmp("s", False))
    # restructuring
    yield F("a.slidingWindow", {"a": AI, "size": "int", "step": "int"}, AAI, {"a.slidingWindow": I("a", "size", "step")}, windows, b=deep)
    yield F("a.combinations", {"a": AI, "size": "int"}, AAI, {"a.combinations": I("a", "size")}, combos, b=deep)
    yield F("a.permutations", A, AAI, {"a.permutations": I("a")}, lambda c, a: perms(a), b=B(arr=3))
    yield F("a.flatten", {"a": AAI}, AI, {"a.flatten": I("a")}, lambda c, a: [x for y in a for x in y])
