"""bytes.*, fixed.*, enum.*, parse.*, impute.* (lib/bytes.py, fixed.py, enum.py, parse.py, impute.py)."""
from harness.lib import *
from harness.strings import norm, cut

BY, S = "bytes", "string"
FX = {"type": "fixed", "name": "Fx", "size": 3}
EN = {"type": "enum", "name": "Color", "symbols": ["red", "green", "blue", "black"]}
UN = ["null", "int"]


def codes(v):
    """The byte values of a bytes value in either of its representations (bytes, or text of code points below 256)."""
    return [ord(x) for x in v] if isinstance(v, str) else list(v)


def samebytes(c, got, want, label):
    """Outcomes agree, with bytes values compared as byte sequences."""
    c.observe(label, got)
    c.check(got[0] == want[0], label + ": outcome kind")
    if got[0] != "ok":
        c.check(got[1] == want[1], label + ": error code")
        return
    g = got[1]
    c.check(isinstance(g, (str, bytes)), label + ": a bytes value")
    g = codes(g)
    c.check(len(g) == len(want[1]), label + ": length")
    c.check(c.and_(True, *[a == b for a, b in zip(g, want[1])]), label + ": bytes")


def repr2(k):
    """A bytes value in both representations an engine meets: bytes objects and Latin-1 text."""
    def g(c, n):
        if c.choice(n + ".repr", ["bytes", "text"]) == "bytes":
            return c.bytes(n, k)
        return c.str(n, k, [(0, 255)])
    return g


def utf8(c, s):
    out = []
    for ch in s:
        x = ord(ch)
        if x < 0x80:
            out += [x]
        elif x < 0x800:
            out += [192 + x // 64, 128 + x % 64]
        elif x < 0x10000:
            out += [224 + x // 4096, 128 + x // 64 % 64, 128 + x % 64]
        else:
            out += [240 + x // 262144, 128 + x // 4096 % 64, 128 + x // 64 % 64, 128 + x % 64]
    return out


def utf16(order, bom=False):
    def f(c, s):
        out = [255, 254] if bom else []

        def unit(u):
            return [u // 256, u % 256] if order == "be" else [u % 256, u // 256]
        for ch in s:
            x = ord(ch)
            if x < 0x10000:
                out += unit(x)
            else:
                out += unit(0xd800 + (x - 0x10000) // 1024) + unit(0xdc00 + (x - 0x10000) % 1024)
        return out
    return f


def upto(lim):
    def f(c, s, err):
        out = [ord(ch) for ch in s]
        for x in out:
            if x > lim:
                raise Err(err)
        return out
    return f


def valid8(bs):
    """Is the byte sequence well-formed UTF-8? (Unicode table 3-7)"""
    i, n = 0, len(bs)
    while i < n:
        b = bs[i]
        if b < 0x80:
            i += 1
            continue
        lo, hi = 0x80, 0xbf
        if b >= 0xc2 and b <= 0xdf:
            k = 1
        elif b >= 0xe0 and b <= 0xef:
            k = 2
            if b == 0xe0:
                lo = 0xa0
            elif b == 0xed:
                hi = 0x9f
        elif b >= 0xf0 and b <= 0xf4:
            k = 3
            if b == 0xf0:
                lo = 0x90
            elif b == 0xf4:
                hi = 0x8f
        else:
            return False
        if i + k >= n:
            return False
        if bs[i + 1] < lo or bs[i + 1] > hi:
            return False
        for j in range(2, k + 1):
            if bs[i + j] < 0x80 or bs[i + j] > 0xbf:
                return False
        i += k + 1
    return True


def valid16(bs, order):
    if len(bs) % 2:
        return False
    us = [(bs[i] * 256 + bs[i + 1]) if order == "be" else (bs[i] + bs[i + 1] * 256) for i in range(0, len(bs), 2)]
    i = 0
    while i < len(us):
        if us[i] >= 0xdc00 and us[i] <= 0xdfff:
            return False
        if us[i] >= 0xd800 and us[i] <= 0xdbff:
            if i + 1 >= len(us) or us[i + 1] < 0xdc00 or us[i + 1] > 0xdfff:
                return False
            i += 1
        i += 1
    return True


def valid16bom(bs):
    if len(bs) >= 2 and bs[0] == 255 and bs[1] == 254:
        return valid16(bs[2:], "le")
    if len(bs) >= 2 and bs[0] == 254 and bs[1] == 255:
        return valid16(bs[2:], "be")
    return valid16(bs, "le")


CODEC = {"Ascii": (lambda bs: all([b < 128 for b in bs]), lambda c, s: upto(127)(c, s, 16150), 16090),
         "Latin1": (lambda bs: True, lambda c, s: upto(255)(c, s, 16160), 16100),
         "Utf8": (valid8, utf8, 16110), "Utf16": (valid16bom, utf16("le", True), 16120),
         "Utf16be": (lambda bs: valid16(bs, "be"), utf16("be"), 16130), "Utf16le": (lambda bs: valid16(bs, "le"), utf16("le"), 16140)}

B64 = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"


def sextet(c, ch):
    x = ord(ch)
    if x >= 65 and x <= 90:
        return x - 65
    if x >= 97 and x <= 122:
        return x - 71
    if x >= 48 and x <= 57:
        return x + 4
    if x == 43:
        return 62
    if x == 47:
        return 63
    return None


def unbase64(c, s):
    """RFC 4648 with padding: groups of four; bits beyond the last byte are ignored."""
    n = len(s)
    k = 0
    while k < n and s[n - 1 - k] == "=":
        k += 1
    vals = [sextet(c, ch) for ch in s[:n - k]]
    if any([v is None for v in vals]):
        raise Err(16220)
    m = len(vals)
    need = {0: 0, 2: 2, 3: 1}.get(m % 4)
    if need is None or k < need:
        raise Err(16220)
    if k > need:
        raise Err(SKIP)     # surplus padding: tolerated, not judged
    out = []
    for i in range(0, m, 4):
        g = vals[i:i + 4]
        w = 0
        for v in g + [0] * (4 - len(g)):
            w = w * 64 + v
        out += [w // 65536, w // 256 % 256, w % 256][:len(g) - 1]
    return out


def parse(err, lo, hi):
    def f(c, s, base):
        if base < 2 or base > 36:
            raise Err(err + 1)
        a, b = 0, len(s)
        def sp(ch):
            x = ord(ch)
            return (x >= 9 and x <= 13) or (x >= 28 and x <= 32)
        while a < b and sp(s[a]):
            a += 1
        while b > a and sp(s[b - 1]):
            b -= 1
        s = s[a:b]
        neg = False
        if len(s) and (s[0] == "+" or s[0] == "-"):
            neg = s[0] == "-"
            s = s[1:]
        if len(s) >= 2 and s[0] == "0" and {16: "xX", 8: "oO", 2: "bB"}.get(base) and s[1] in {16: "xX", 8: "oO", 2: "bB"}[base]:
            raise Err(SKIP)     # radix prefixes: tolerated, not judged
        if len(s) == 0:
            raise Err(err)
        v = 0
        for ch in s:
            x = ord(ch)
            if x >= 48 and x <= 57:
                d = x - 48
            elif x >= 97 and x <= 122:
                d = x - 87
            elif x >= 65 and x <= 90:
                d = x - 55
            else:
                raise Err(err)
            if d >= base:
                raise Err(err)
            v = v * base + d
        v = -v if neg else v
        if v < lo or v > hi:
            raise Err(err)
        return v
    return f


def jobs(tier):
    deep = tier == "thorough"
    I = lambda *xs: ["input." + x for x in xs]
    k = 4 if deep else 3
    X = {"x": BY}
    gx = {"x": repr2(k)}
    yield F("bytes.len", X, "int", {"bytes.len": I("x")}, lambda c, x: len(x), gens=gx)
    XSE = {"x": BY, "a": "int", "b": "int"}
    yield F("bytes.subseq", XSE, BY, {"bytes.subseq": I("x", "a", "b")},
            lambda c, x, a, b: codes(x)[norm(len(x), a):norm(len(x), b)], gens=gx, cmp=samebytes)

    def subto(c, x, a, b, r):
        x, r = codes(x), codes(r)
        a, b = norm(len(x), a), norm(len(x), b)
        b = a if b < a else b
        return x[:a] + r + x[b:]
    yield F("bytes.subseqto", dict(XSE, r=BY), BY, {"bytes.subseqto": I("x", "a", "b", "r")}, subto, gens={"x": repr2(k), "r": repr2(1)}, cmp=samebytes)
    for name, (ok, enc, err) in CODEC.items():
        dec = "bytes.decode" + name
        yield F("bytes.is%s of bytes" % name, X, "boolean", {"bytes.is" + name: I("x")}, lambda c, x, ok=ok: ok(codes(x)), gens=gx)

        def fits(c, s, enc=enc):
            try:
                enc(c, s)
            except Err:
                return False
            return True
        yield F("bytes.is%s of string" % name, {"x": S}, "boolean", {"bytes.is" + name: I("x")}, fits, b=B(slen=2))
        yield F("bytes.encode" + name, {"x": S}, BY, {"bytes.encode" + name: I("x")}, enc, b=B(slen=2), cmp=samebytes)
        yield F("decode%s after encode" % name, {"x": S}, S, {dec: [{"bytes.encode" + name: I("x")}]},
                lambda c, x, enc=enc: (enc(c, x), x)[1], b=B(slen=2))
        yield F("is%s after encode" % name, {"x": S}, "boolean", {"bytes.is" + name: [{"bytes.encode" + name: I("x")}]},
                lambda c, x, enc=enc: (enc(c, x), True)[1], b=B(slen=2))

        def decodes(c, got, want, label):
            c.check(got[0] == want[0], label + ": outcome kind")
            if got[0] != "ok":
                c.check(got[1] == want[1], label + ": error code")

        def bad(c, x, ok=ok, err=err):
            if not ok(codes(x)):
                raise Err(err)
        yield F(dec + " accepts exactly the valid", X, S, {dec: I("x")}, bad, gens=gx, cmp=decodes)
    yield F("bytes.decodeLatin1", X, S, {"bytes.decodeLatin1": I("x")}, lambda c, x: "".join([chr(b) for b in codes(x)]), gens=gx)
    yield F("encodeUtf8 after decodeUtf8", X, BY, {"bytes.encodeUtf8": [{"bytes.decodeUtf8": I("x")}]},
            lambda c, x: codes(x) if valid8(codes(x)) else (_ for _ in ()).throw(Err(16110)), gens={"x": repr2(3)}, cmp=samebytes)
    yield F("fromBase64 after toBase64", X, BY, {"bytes.fromBase64": [{"bytes.toBase64": I("x")}]}, lambda c, x: codes(x), gens={"x": repr2(4 if deep else 3)}, cmp=samebytes)
    ab = [(10, 10), (43, 57), (61, 61), (65, 66), (95, 122)]
    yield F("bytes.fromBase64", {"s": S}, BY, {"bytes.fromBase64": I("s")}, unbase64, gens={"s": lambda c, n: c.str(n, 4, ab if deep else [(10, 10), (47, 47), (57, 57), (61, 61), (65, 65), (95, 95), (97, 97)])}, cmp=samebytes, max_paths=20000)

    # fixed
    gf = {"x": lambda c, n: c.bytes(n, 3, 3) if c.choice(n + ".repr", ["bytes", "text"]) == "bytes" else c.str(n, 3, [(0, 255)], lens=[3])}
    yield F("fixed.toBytes", {"x": FX}, BY, {"fixed.toBytes": I("x")}, lambda c, x: codes(x), gens=gf, cmp=samebytes)

    def frombytes(c, x, r):
        x, r = codes(x), codes(r)
        return r[:3] + x[len(r):]
    yield F("fixed.fromBytes", {"x": FX, "r": BY}, "Fx", {"fixed.fromBytes": I("x", "r")}, frombytes, gens=dict(gf, r=repr2(4)), cmp=samebytes, check_type=False)
    # enum
    yield F("enum.toString", {"x": EN}, S, {"enum.toString": I("x")}, lambda c, x: x)
    yield F("enum.toInt", {"x": EN}, "int", {"enum.toInt": I("x")}, lambda c, x: EN["symbols"].index(x))
    yield F("enum.numSymbols", {"x": EN}, "int", {"enum.numSymbols": I("x")}, lambda c, x: 4)
    # parse
    asc = [(0, 127)]
    base = lambda c, n: c.choice(n, [-2147483648, 1, 2, 8, 10, 16, 36, 37])
    for fn, err, lo, hi in (("int", 33000, INT_MIN, INT_MAX), ("long", 33010, LONG_MIN, LONG_MAX)):
        SB = {"s": S, "base": "int"}
        yield F("parse." + fn, SB, fn, {"parse." + fn: I("s", "base")}, parse(err, lo, hi), gens={"s": lambda c, n, fn=fn: c.str(n, k, asc) if deep else c.str(n, 3 if fn == "long" else 2, asc), "base": base if deep or fn == "int" else (lambda c, n: c.choice(n, [8, 16]))})
        n = 10 if fn == "int" else 19
        yield F("parse.%s range" % fn, SB, fn, {"parse." + fn: I("s", "base")}, parse(err, lo, hi),
                gens={"s": lambda c, nm, n=n: c.choice(nm + ".sign", ["", "-", "+"]) + c.str(nm, n + 1, "0123456789", lens=[n, n + 1]), "base": lambda c, nm: 10})
        yield F("s.int then parse." + fn, {"x": fn}, fn, {"parse." + fn: [{"s.int": I("x")}, 10]}, lambda c, x: x)

    def decimal(c, a, f, e, sg):
        v = c.exact(1) * (a * 100 + f)
        v = v * 10 ** (e - 2) if e >= 2 else v / 10 ** (2 - e)
        return -v if sg == "-" else v

    def near(c, got, want, label):
        c.check(got[0] == want[0], label + ": outcome kind")
        if got[0] == "ok":
            c.check(isinstance(got[1], float), label + ": a float")
            c.check(c.same(got[1], want[1] * 1.0) if not isinstance(want[1], float) else c.same(got[1], want[1]), label + ": value")

    for fn, err in (("float", 33020), ("double", 33030)):
        def text(c, x, fn=fn):
            return x
        # sign, integer digits, two fraction digits, exponent
        yield F("parse.%s decimal" % fn, {"s": S}, fn, {"parse." + fn: I("s")},
                lambda c, s: decimal_of(c, s), gens={"s": lambda c, n: c.choice(n + ".sg", ["", "-", "+"]) + c.str(n + ".a", 2, "0123456789", lens=[1, 2]) + "." +
                                                     c.str(n + ".f", 2, "0123456789", lens=[0, 2]) + c.choice(n + ".e", ["", "e0", "e+1", "E-3", "e2"])}, cmp=near)

        def junk(c, s, err=err):
            if any([ch != "+" and ch != "-" and ch != "." and not (ord(ch) >= 48 and ord(ch) <= 57) for ch in s]):
                raise Err(err)
            raise Err(SKIP)
        yield F("parse.%s rejects" % fn, {"s": S}, fn, {"parse." + fn: I("s")}, junk, gens={"s": lambda c, n: c.str(n, 3, [(33, 64), (71, 72), (74, 77), (79, 100), (103, 104), (106, 109), (111, 127)])})
        yield F("parse.%s words" % fn, {"s": S}, fn, {"parse." + fn: I("s")}, lambda c, s: {"inf": float("inf"), "-inf": -float("inf"), "+inf": float("inf"), "nan": float("nan")}[s.strip().lower()],
                gens={"s": lambda c, n: c.choice(n, ["inf", "-inf", "+inf", "nan", "Inf", "NaN", "-INF", " inf "])})
    yield F("parse.float range", {"s": S}, "float", {"parse.float": I("s")}, lambda c, s: {"1e39": float("inf"), "-1e39": -float("inf"), "1e-50": 0.0, "-1e-50": 0.0, "3e38": 3e38}[s],
            gens={"s": lambda c, n: c.choice(n, ["1e39", "-1e39", "1e-50", "-1e-50", "3e38"])})
    # impute
    XU = {"x": UN}
    need = lambda c, x: x["int"] if x is not None else (_ for _ in ()).throw(Err(21000))
    yield F("impute.errorOnNull", XU, "int", {"impute.errorOnNull": I("x")}, need)
    yield F("impute.defaultOnNull", dict(XU, d="int"), "int", {"impute.defaultOnNull": I("x", "d")}, lambda c, x, d: d if x is None else x["int"])
    RM = {"type": "map", "values": "int"}
    UM = ["null", RM]
    yield F("impute.errorOnNull map", {"x": UM}, RM, {"impute.errorOnNull": I("x")}, lambda c, x: x["map"] if x is not None else (_ for _ in ()).throw(Err(21000)))
    yield F("impute.defaultOnNull map", {"x": UM, "d": RM}, RM, {"impute.defaultOnNull": I("x", "d")}, lambda c, x, d: d if x is None else x["map"])
    # a bare (non-nullable) value passes through
    yield F("impute.errorOnNull bare map", {"x": RM}, RM, {"impute.errorOnNull": I("x")}, lambda c, x: x)
    d3 = {"x": lambda c, n: c.double(n), "d": lambda c, n: c.double(n)}
    nf = lambda x: x != x or x in (float("inf"), -float("inf"))
    for t in ("float", "double"):
        yield F("impute.isnan " + t, {"x": t}, "boolean", {"impute.isnan": I("x")}, lambda c, x: x != x, gens=d3)
        yield F("impute.isinf " + t, {"x": t}, "boolean", {"impute.isinf": I("x")}, lambda c, x: x in (float("inf"), -float("inf")), gens=d3)
        yield F("impute.isnum " + t, {"x": t}, "boolean", {"impute.isnum": I("x")}, lambda c, x: not nf(x), gens=d3)

        def nonnum(c, x):
            if x != x:
                raise Err(21050)
            if x == float("inf"):
                raise Err(21051)
            if x == -float("inf"):
                raise Err(21052)
            return x
        yield F("impute.errorOnNonNum " + t, {"x": t}, t, {"impute.errorOnNonNum": I("x")}, nonnum, gens=d3)
        yield F("impute.defaultOnNonNum " + t, {"x": t, "d": t}, t, {"impute.defaultOnNonNum": I("x", "d")}, lambda c, x, d: d if nf(x) else x, gens=d3)


def decimal_of(c, s):
    """Exact value of [sign]digits[.digits][e<int>] (all shapes concrete; digits may be symbolic)."""
    neg = False
    if s[0] == "+" or s[0] == "-":
        neg = s[0] == "-"
        s = s[1:]
    v, scale, seen, i = 0, 0, False, 0
    while i < len(s):
        ch = s[i]
        if ch == ".":
            seen = True
        elif ch == "e" or ch == "E":
            break
        else:
            v = v * 10 + (ord(ch) - 48)
            scale -= 1 if seen else 0
        i += 1
    e = 0
    if i < len(s):
        e = {"0": 0, "+1": 1, "-3": -3, "2": 2}[s[i + 1:]]
    scale += e
    from fractions import Fraction
    v = c.exact(v * 1.0) * 10 ** scale if scale >= 0 else c.exact(v * 1.0) / 10 ** (-scale)
    v = float(v) if isinstance(v, Fraction) else v
    return -v if neg else v
