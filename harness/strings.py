"""String library s.* (lib/pfastring.py)."""
import math
from harness.lib import *

S, AS = "string", {"type": "array", "items": "string"}
NINT = ["int", "null"]


def norm(n, i):
    """Python-style index clamped into [0, n]."""
    i = i + n if i < 0 else i
    return 0 if i < 0 else (n if i > n else i)


def at(h, n, i):
    """Does n occur in h at position i? (as a truth value; forks)"""
    return i + len(n) <= len(h) and all(h[i + j] == n[j] for j in range(len(n)))


def find_all(h, n):
    """Leftmost non-overlapping occurrences of a non-empty needle."""
    out, i = [], 0
    while i + len(n) <= len(h):
        if at(h, n, i):
            out.append(i)
            i += len(n)
        else:
            i += 1
    return out


def cut(s, a, b):
    out = ""
    for i in range(a, b):
        out = out + s[i]
    return out


def rev(s):
    out = ""
    for ch in s:
        out = ch + out
    return out


def substr(c, s, start, end):
    a, b = norm(len(s), start), norm(len(s), end)
    return cut(s, a, b)


def substrto(c, s, start, end, r):
    a, b = norm(len(s), start), norm(len(s), end)
    b = a if b < a else b
    return cut(s, 0, a) + r + cut(s, b, len(s))


def index(c, h, n):
    for i in range(len(h) - len(n) + 1):
        if at(h, n, i):
            return i
    return -1


def rindex(c, h, n):
    for i in range(len(h) - len(n), -1, -1):
        if at(h, n, i):
            return i
    return -1


def replace(c, s, o, r, limit=None):
    if len(o) == 0:
        # an empty pattern matches before every character and at the end
        out, k = "", 0
        for i in range(len(s) + 1):
            if limit is None or k < limit:
                out = out + r
                k += 1
            if i < len(s):
                out = out + s[i]
        return out
    out, last = "", 0
    for i in find_all(s, o)[:limit]:
        out = out + cut(s, last, i) + r
        last = i + len(o)
    return out + cut(s, last, len(s))


def split(c, s, sep):
    if len(sep) == 0:
        return []
    out, last = [], 0
    for i in find_all(s, sep):
        out.append(cut(s, last, i))
        last = i + len(sep)
    return out + [cut(s, last, len(s))]


def join(c, a, sep):
    out = ""
    for i, x in enumerate(a):
        out = out + (sep + x if i else x)
    return out


def strip(left, right):
    def f(c, s, chars):
        def inside(ch):
            return any([ch == x for x in chars])
        a, b = 0, len(s)
        while left and a < b and inside(s[a]):
            a += 1
        while right and b > a and inside(s[b - 1]):
            b -= 1
        return cut(s, a, b)
    return f


def case(lo, hi, d):
    def f(c, s):
        out = ""
        for ch in s:
            x = ord(ch)
            out = out + (chr(x + d) if x >= ord(lo) and x <= ord(hi) else ch)
        return out
    return f


def translate(c, s, old, new):
    out = ""
    for ch in s:
        hit = -1
        for i, o in enumerate(old):
            if ch == o:
                hit = i
                break
        if hit < 0:
            out = out + ch
        elif hit < len(new):
            out = out + new[hit]
    return out


def ndigits(v, base):
    n = 1
    while not v < base ** n:
        n += 1
    return n


class Num(object):
    """n digits (with a point after `whole` of them, when whole < n) whose value, read as an integer, is v."""

    def __init__(self, n, v, base=10, whole=None):
        self.n, self.v, self.base, self.whole = n, v, base, n if whole is None else whole

    def __len__(self):
        return self.n + (1 if self.whole < self.n else 0)


def template(c, got, want, label):
    """The result reads as the concatenation of the expected parts (literal text and numerals)."""
    c.observe(label, got)
    c.check(got[0] == want[0], label + ": outcome kind")
    if got[0] != "ok":
        c.check(got[1] == want[1], label + ": error code")
        return
    s, parts = got[1], want[1]
    c.check(len(s) == sum(len(p) for p in parts), label + ": length")
    i = 0
    for p in parts:
        t = s[i:i + len(p)]
        i += len(p)
        if not isinstance(p, Num):
            c.check(t == p, label + ": padding, sign and exponent")
            continue
        if p.whole < p.n:
            c.check(t[p.whole] == ".", label + ": decimal point")
            t = t[:p.whole] + t[p.whole + 1:]
        v = 0
        for ch in t:
            x = ord(ch)
            if p.base == 16:
                c.check(c.or_(c.and_(x >= 48, x <= 57), c.and_(x >= 97, x <= 102)), label + ": digits")
                x = c.ite(x >= 97, x - 87, x - 48)
            else:
                c.check(c.and_(x >= 48, x <= 57), label + ": digits")
                x = x - 48
            v = v * p.base + x
        c.check(v == p.v, label + ": digits give the value")


def justify(parts, w):
    if w is None:
        return parts
    pad = " " * (abs(w) - sum(len(p) for p in parts))
    return parts + [pad] if w < 0 else [pad] + parts


def fixednum(base, err):
    """s.int / s.hex / s.number(long) with width and zero padding"""
    def f(c, x, w=None, zp=False):
        if base == 16 and x < 0:
            raise Err(err + 1)
        if zp and w < 0:
            raise Err(err)
        if w == 0:
            return []
        v = -x if x < 0 else x
        sg = "-" if x < 0 else ""
        n = ndigits(v, base)
        if zp:
            return [sg, Num(max(n, w - len(sg)), v, base)]
        return justify([sg, Num(n, v, base)], w)
    return f


def number(c, x, w, p, lo=0.0001, hi=100000):
    """Decimal rendering: fixed notation between lo and hi (and for zero), exponent notation otherwise; default precision 6
    with trailing zeros dropped."""
    w = None if w is None else w["int"]
    default = p is None
    p = 6 if p is None else p["int"]
    if p < 0:
        raise Err(39121)
    x = c.exact(x)
    neg = x < 0
    v = -x if neg else x
    tail = ""
    if v == 0 or (v >= c.exact(lo) and v <= c.exact(hi)):
        q, e = v * 10 ** p, None
    else:
        e = 0
        while v >= 10 ** (e + 1):
            e += 1
        while e <= 0 and v * 10 ** (-e) < 1:
            e -= 1
        q = v * 10 ** (p - e) if p >= e else v / 10 ** (e - p)
    f = math.floor(q)
    r = q - f
    n = c.ite(c.or_(r > 0.5, c.and_(r == 0.5, f % 2 == 1)), f + 1, f)
    if e is not None:
        if n == 10 ** (p + 1):
            n, e = 10 ** p, e + 1
        tail = "e" + ("-" if e < 0 else "+") + ("0" if abs(e) < 10 else "") + str(abs(e))
    nd = max(ndigits(n, 10), p + 1)
    whole = nd - p
    if default:
        k = p
        while k > 1 and n % 10 == 0:
            n, k, nd = n // 10, k - 1, nd - 1
    return justify(["-" if neg else "", Num(nd, n, 10, whole), tail], w)


def jobs(tier):
    deep = tier == "thorough"
    I = lambda *xs: ["input." + x for x in xs]
    n = 5 if deep else 4
    b = B(slen=n)
    any_ = lambda k: (lambda c, nm: c.str(nm, k))
    sm = lambda k: (lambda c, nm: c.str(nm, k, "abcd"))
    HN = {"h": S, "n": S}
    gh = {"h": any_(n), "n": any_(2)}
    yield F("s.len", {"s": S}, "int", {"s.len": I("s")}, lambda c, s: len(s), b=b)
    SSE = {"s": S, "a": "int", "b": "int"}
    yield F("s.substr", SSE, S, {"s.substr": I("s", "a", "b")}, substr, b=b)
    yield F("s.substrto", dict(SSE, r=S), S, {"s.substrto": I("s", "a", "b", "r")}, substrto, gens={"s": any_(n), "r": any_(1)})
    yield F("s.contains", HN, "boolean", {"s.contains": I("h", "n")}, lambda c, h, n: any(at(h, n, i) for i in range(len(h) + 1)), gens=gh)
    yield F("s.count", HN, "int", {"s.count": I("h", "n")}, lambda c, h, n: len(find_all(h, n)) if len(n) else 0, gens=gh)
    yield F("s.index", HN, "int", {"s.index": I("h", "n")}, index, gens=gh)
    yield F("s.rindex", HN, "int", {"s.rindex": I("h", "n")}, rindex, gens=gh)
    yield F("s.startswith", HN, "boolean", {"s.startswith": I("h", "n")}, lambda c, h, n: at(h, n, 0), gens=gh)
    yield F("s.endswith", HN, "boolean", {"s.endswith": I("h", "n")}, lambda c, h, n: len(n) <= len(h) and at(h, n, len(h) - len(n)), gens=gh)
    yield F("s.join", {"a": AS, "sep": S}, S, {"s.join": I("a", "sep")}, join, b=B(arr=3, slen=1))
    yield F("s.split", {"s": S, "sep": S}, AS, {"s.split": I("s", "sep")}, split, gens={"s": any_(n), "sep": any_(2)})
    yield F("s.join inverts s.split", {"s": S, "sep": S}, S, {"s.join": [{"s.split": I("s", "sep")}, "input.sep"]},
            lambda c, s, sep: s if len(sep) else "", gens={"s": any_(n), "sep": any_(2)})
    yield F("s.concat", {"x": S, "y": S}, S, {"s.concat": I("x", "y")}, lambda c, x, y: x + y, b=b)
    yield F("s.repeat", {"s": S, "n": "int"}, S, {"s.repeat": I("s", "n")}, lambda c, s, n: join(c, [s] * n, "") if n > 0 else "",
            gens={"s": any_(2), "n": lambda c, nm: c.choice(nm, [-2147483648, -1, 0, 1, 2, 3, 5])})
    asc = [(0, 127)]
    yield F("s.lower", {"s": S}, S, {"s.lower": I("s")}, case("A", "Z", 32), gens={"s": lambda c, nm: c.str(nm, n, asc)})
    yield F("s.upper", {"s": S}, S, {"s.upper": I("s")}, case("a", "z", -32), gens={"s": lambda c, nm: c.str(nm, n, asc)})
    SC = {"s": S, "chars": S}
    gs = {"s": any_(n), "chars": any_(2)}
    yield F("s.lstrip", SC, S, {"s.lstrip": I("s", "chars")}, strip(True, False), gens=gs)
    yield F("s.rstrip", SC, S, {"s.rstrip": I("s", "chars")}, strip(False, True), gens=gs)
    yield F("s.strip", SC, S, {"s.strip": I("s", "chars")}, strip(True, True), gens=gs)
    SOR = {"s": S, "o": S, "r": S}
    gr = {"s": any_(n), "o": any_(2), "r": any_(1)}
    yield F("s.replaceall", SOR, S, {"s.replaceall": I("s", "o", "r")}, replace, gens=gr)
    yield F("s.replacefirst", SOR, S, {"s.replacefirst": I("s", "o", "r")}, lambda c, s, o, r: replace(c, s, o, r, 1), gens=gr)
    yield F("s.replacelast", SOR, S, {"s.replacelast": I("s", "o", "r")}, lambda c, s, o, r: rev(replace(c, rev(s), rev(o), rev(r), 1)), gens=gr)
    yield F("s.translate", {"s": S, "o": S, "r": S}, S, {"s.translate": I("s", "o", "r")}, translate, gens={"s": any_(3), "o": any_(2), "r": any_(2)})
    ws = [-12, -3, -1, 0, 1, 2, 3, 12]
    WZ = {"x": "long", "w": "int", "z": "boolean"}
    gw = {"w": lambda c, nm: c.choice(nm, ws), "z": lambda c, nm: c.choice(nm, [False, True])}
    small = lambda c, nm: c.int(nm, -9999999, 9999999)
    gws = dict(gw, x=small)
    for fn, base, err in (("s.int", 10, 39240), ("s.hex", 16, 39110)):
        yield F(fn, {"x": "long"}, S, {fn: I("x")}, fixednum(base, err), cmp=template,
                gens={"x": lambda c, nm, base=base: c.long(nm) if base == 10 or deep else c.int(nm, LONG_MIN, 1 << 36)})
        yield F(fn + " width", WZ, S, {fn: I("x", "w", "z")}, fixednum(base, err), gens=gws, cmp=template)
    PD = {"x": "double", "w": NINT, "p": NINT}
    wgen = lambda c, nm: c.choice(nm, [None, {"int": -9}, {"int": 1}, {"int": 8}])
    pgen = lambda c, nm: c.choice(nm, [{"int": -1}, {"int": 0}, {"int": 2}, {"int": 3}])
    fix = lambda c, nm: c.real(nm, -99999, 99999)
    ext = lambda c, nm: c.real(nm, -10000000, 10000000)
    yield F("s.number double", PD, S, {"s.number": I("x", "w", "p")}, number, cmp=template, gens={"x": ext, "w": wgen, "p": pgen},
            pre=lambda c, x, w, p: c.assume(c.or_(x == 0, x > 1e-6, x < -1e-6)))
    yield F("s.number default precision", PD, S, {"s.number": I("x", "w", "p")}, number, cmp=template,
            gens={"x": lambda c, nm: c.int(nm, -99999, 99999) / 1000, "w": wgen, "p": lambda c, nm: None})
    yield F("s.number limits", dict(PD, lo="double", hi="double"), S, {"s.number": I("x", "w", "p", "lo", "hi")}, number, cmp=template,
            gens={"x": lambda c, nm: c.real(nm, -9999, 9999), "w": lambda c, nm: None, "p": lambda c, nm: {"int": 1},
                  "lo": lambda c, nm: c.choice(nm, [0.0, 0.5, 50.0]), "hi": lambda c, nm: c.choice(nm, [10.0, 1000.0])},
            pre=lambda c, x, w, p, lo, hi: c.assume(c.or_(x == 0, x > 1e-3, x < -1e-3)))
