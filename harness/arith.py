"""Core arithmetic, logic, bitwise operators (lib/core.py) and m.* (lib/pfamath.py)."""
import math

from harness.lib import *

RANGE = {"int": (INT_MIN, INT_MAX, 0), "long": (LONG_MIN, LONG_MAX, 1)}
BASE = {"+": 18000, "-": 18010, "*": 18020, "//": 18040, "u-": 18050, "%": 18060, "%%": 18070, "**": 18080, "m.abs": 27020}


def small(c, n):
    return c.real(n, -1000, 1000)


def divisor(t):
    vals = [0, 1, -1, 2, -2, 3, -3, 7, -7, 10, 1000, -4096, INT_MAX, INT_MIN]
    if t not in RANGE:
        vals = [0.0, 1.0, -0.5, 2.0, -3.0, 10.0, 64.0]
    return lambda c, n: c.choice(n, vals)


def fit(c, op, t, v):
    if t in RANGE:
        lo, hi, k = RANGE[t]
        if c.or_(v < lo, v > hi):
            raise Err(BASE[op] + k)
    return v


def floordiv(c, op, x, y):
    if y == 0:
        raise Err(BASE[op])
    return trunc_div(c, x, y)


def modulo(c, t, x, y):
    if y == 0:
        if t in RANGE:
            raise Err(18060)
        return float("nan")
    return x - y * floor(c, t, x, y)


def floor(c, t, x, y):
    if t in RANGE:
        q = abs(x) // abs(y)
        neg = c.not_(c.eq(x < 0, y < 0))
        return c.ite(neg, c.ite(q * abs(y) == abs(x), -q, -q - 1), q)
    return math.floor(x / y)


def remainder(c, t, x, y):
    if y == 0:
        if t in RANGE:
            raise Err(18070)
        return float("nan")
    if t in RANGE:
        return x - y * trunc_div(c, x, y)
    q = math.floor(abs(x) / abs(y))
    r = abs(x) - abs(y) * q
    return c.ite(x < 0, -r, r)


def power(c, t, x, n):
    v = 1
    for _ in range(n):
        v = v * x
    return fit(c, "**", t, v)


def op2(op, t, f, **kw):
    return F("%s %s" % (op, t), {"x": t, "y": t}, t, {op: ["input.x", "input.y"]}, lambda c, x, y: f(c, t, x, y), **kw)


def special(c, name):
    return c.double(name)


EXPONENTS = [0.0, 1.0, 2.0, 3.0, -1.0, -2.0, 5.0, float("inf"), float("-inf"), float("nan")]


def power_special(c, x, y):
    """C's pow on the extended reals, except that 1 ** inf is not a number and that signed zeros are not judged."""
    inf, nan = float("inf"), float("nan")
    if y == 0:
        return 1.0
    if x != x or y != y:
        return nan
    if y in (inf, -inf):
        if c.or_(x == 1, x == -1):
            return nan
        return 0.0 if (abs(x) < 1) == (y > 0) else inf
    if x in (inf, -inf):
        return 0.0 if y < 0 else -inf if x < 0 and y % 2 == 1 else inf
    if x == 0:
        return inf if y < 0 else 0.0
    v = 1.0
    for _ in range(int(abs(y))):
        v = v * x
    return v if y > 0 else 1.0 / v


def divide(c, x, y):
    if y == 0:
        return float("inf") if x > 0 else float("-inf") if x < 0 else float("nan")
    return x / y


def kleene(c, name):
    v = c.choice(name, ["t", "f", "n"])
    return {"t": {"boolean": True}, "f": {"boolean": False}, "n": None}[v]


K = {"type": "u"}
KB = ["boolean", "null"]


def kval(x):
    return None if x is None else x["boolean"]


def kwrap(x):
    return None if x is None else {"boolean": x}


def kand(c, x, y):
    x, y = kval(x), kval(y)
    if x is False or y is False:
        return kwrap(False)
    if x is None or y is None:
        return None
    return kwrap(True)


def kor(c, x, y):
    x, y = kval(x), kval(y)
    if x is True or y is True:
        return kwrap(True)
    if x is None or y is None:
        return None
    return kwrap(False)


def knot(c, x):
    return None if x is None else kwrap(not kval(x))


# ---------------------------------------------------------------- short circuit: the second operand fails
def shortcircuit(op, decided):
    def setup():
        return fn_engine({"x": "boolean", "y": "boolean"}, "boolean", {op: ["input.x", {"do": [{"if": "input.y", "then": {"error": "E", "code": -7}}, "input.y"]}]})

    def fn(c, env):
        x, y = c.bool("x"), c.bool("y")
        got = act(env, {"x": x, "y": y})
        c.observe("kind", got[0])
        if (x if decided else c.not_(x)):
            c.check(got[0] == "ok", op + " does not evaluate its second operand when decided")
            c.check(got[0] != "ok" or c.eq(got[1], decided), op + " value")
        elif y:
            c.check(got == ("user", -7), op + " evaluates its second operand when undecided")
        else:
            c.check(got[0] == "ok" and c.eq(got[1], False), op + " value of second operand")
    return Job("shortcircuit " + op, fn, setup)


def kshort(op, decided):
    def setup():
        return fn_engine({"x": KB, "y": "boolean"}, KB, {op: ["input.x", {"do": [{"if": "input.y", "then": {"error": "E", "code": -7}}, "input.y"]}]})

    def fn(c, env):
        x, y = kleene(c, "x"), c.bool("y")
        got = act(env, {"x": x, "y": y})
        c.observe("kind", got[0])
        if kval(x) is decided:
            c.check(got[0] == "ok" and c.eq(got[1], {"boolean": decided}), op + " decided by its first operand")
        elif y:
            c.check(got == ("user", -7), op + " evaluates its second operand when undecided")
        else:
            want = (kand if op == "&&&" else kor)(c, x, {"boolean": False})
            c.check(got[0] == "ok" and c.eq(got[1], want), op + " value")
    return Job("shortcircuit " + op, fn, setup)


# ---------------------------------------------------------------- bitwise: exact-width two's complement
def bitwise(op, t, f):
    names = ["x"] if op == "~" else ["x", "y"]
    return F("%s %s" % (op, t), dict((n, t) for n in names), t, {op: ["input." + n for n in names]}, f, mode="fp")


# ---------------------------------------------------------------- m.*
def nonfinite(x):
    return x != x or x in (float("inf"), float("-inf"))


def m_round(t, base):
    def f(c, x):
        lo, hi, k = RANGE[t]
        if isinstance(x, float) and nonfinite(x):
            raise Err(base + k)
        v = math.floor(x + 0.5)
        if c.or_(v < lo, v > hi):
            raise Err(base + k)
        return v
    return f


def m_rint(c, x):
    if nonfinite(x):
        return x
    lo = math.floor(x)
    d = x - lo
    if d < 0.5:
        return lo
    if d > 0.5:
        return lo + 1
    return 2 * math.floor((lo + 1) / 2)


def m_signum(c, x):
    if x != x:
        return 0
    return 1 if x > 0 else -1 if x < 0 else 0


def sqrt_cmp(c, got, want, label):
    agree(c, got, want, label)


def m_sqrt(c, x):
    if x != x or x < 0:
        return float("nan")
    return math.sqrt(x)


def m_ln(c, x):
    if x != x or x < 0:
        return float("nan")
    if x == 0:
        return float("-inf")
    if nonfinite(x):
        return x
    return math.log(x)


def m_log10(c, x):
    if x != x or x < 0:
        return float("nan")
    if x == 0:
        return float("-inf")
    if nonfinite(x):
        return x
    return math.log10(x)


def m_ln1p(c, x):
    if x != x or x < -1:
        return float("nan")
    if x == -1:
        return float("-inf")
    if nonfinite(x):
        return x
    return math.log(1 + x)


def m_log(c, x, b):
    if b <= 0:
        raise Err(27170)
    if x != x or x < 0:
        return float("nan")
    if x == 0:
        return float("-inf")
    if b == 1:
        return float("-inf") if x < 1 else float("nan") if x == 1 else float("inf")
    if nonfinite(x):
        return float("inf")
    return math.log(x) / math.log(b)


def trig(f):
    def g(c, x):
        if nonfinite(x):
            return float("nan")
        return f(x)
    return g


def arc(f):
    def g(c, x):
        if x != x or x < -1 or x > 1:
            return float("nan")
        return f(x)
    return g


def expo(f, over, under=None):
    """f overflowing to the given infinities instead of failing."""
    def g(c, x):
        if x != x:
            return x
        if nonfinite(x):
            return {True: over, False: under}[x > 0]
        try:
            return f(x)
        except OverflowError:
            return over if x > 0 else under
    return g


def m_hypot(c, x, y):
    if nonfinite(x) or nonfinite(y):
        if x in (float("inf"), float("-inf")) or y in (float("inf"), float("-inf")):
            return float("inf")
        return float("nan")
    return math.sqrt(x * x + y * y)


def m1(name, f, ret="double", t="double", **kw):
    return F(name + (" " + t if t != "double" else ""), {"x": t}, ret, {name: ["input.x"]}, f, gens={"x": special}, **kw)


def copysign(c, t, m, s):
    a = abs(m)
    v = c.ite(s < 0, -a, a)
    if t in RANGE and c.known("copysign-min", c.and_(m == RANGE[t][0], s >= 0)):
        raise Err(SKIP)
    return v


def jobs(tier):
    inf, nan = float("inf"), float("nan")
    for op in "+-*":
        for t in ("int", "long", "float", "double"):
            yield op2(op, t, lambda c, t, x, y, op=op: fit(c, op, t, x + y if op == "+" else x - y if op == "-" else x * y))
    for op in "+-*":
        yield F("%s double ieee" % op, {"x": "double", "y": "double"}, "double", {op: ["input.x", "input.y"]},
                lambda c, x, y, op=op: x + y if op == "+" else x - y if op == "-" else x * y, gens={"x": special, "y": special}, mode="fp")
    yield F("/ double", {"x": "double", "y": "double"}, "double", {"/": ["input.x", "input.y"]}, divide, gens={"x": special, "y": special})
    yield F("/ double ieee", {"x": "double", "y": "double"}, "double", {"/": ["input.x", "input.y"]}, divide, gens={"x": special, "y": special}, mode="fp")
    yield F("/ int", {"x": "int", "y": "int"}, "double", {"/": ["input.x", "input.y"]}, divide)
    for t in ("int", "long"):
        yield op2("//", t, lambda c, t, x, y: (fit_div(c, t, floordiv(c, "//", x, y))))
    for t in ("int", "long", "float", "double"):
        yield F("u- " + t, {"x": t}, t, {"u-": ["input.x"]}, lambda c, x, t=t: fit(c, "u-", t, -x))
        yield op2("%", t, modulo, qms=20000)
        if t in RANGE:
            yield op2("%%", t, remainder, gens={"y": divisor(t)}, bound="%% on int/long: divisors from a fixed set of 14 constants")
        else:
            yield op2("%%", t, remainder, gens={"x": small, "y": divisor(t)}, bound="%% on float/double: |x| <= 1000, divisors from a fixed set of constants", qms=4000)
        yield F("m.abs " + t, {"x": t}, t, {"m.abs": ["input.x"]}, lambda c, x, t=t: fit(c, "m.abs", t, abs(x)))
        yield op2("m.copysign", t, copysign)
        for n in (0, 1, 2, 3, 4) if t in RANGE else (0, 1, 2, 3):
            if t in RANGE:
                yield F("** %d %s" % (n, t), {"x": t}, t, {"**": ["input.x", n]}, lambda c, x, t=t, n=n: power(c, t, x, n), qms=20000)
    for y in EXPONENTS:
        yield F("** double to the %s" % y, {"x": "double", "y": "double"}, "double", {"**": ["input.x", "input.y"]}, power_special, gens={"x": special, "y": lambda c, n, y=y: y}, qms=20000)
    for b in (2, 3, 7, 10, -2, -3):
        yield F("** base %d long" % b, {"n": "long"}, "long", {"**": [{"type": "long", "value": b}, "input.n"]},
                lambda c, n, b=b: fit(c, "**", "long", b ** int(n)), gens={"n": lambda c, n: c.choice(n, list(range(0, 70)))})
        yield F("** base %d int" % b, {"n": "int"}, "int", {"**": [b, "input.n"]},
                lambda c, n, b=b: fit(c, "**", "int", b ** int(n)), gens={"n": lambda c, n: c.choice(n, list(range(0, 40)))})
    B2 = {"x": "boolean", "y": "boolean"}
    yield F("&&", B2, "boolean", {"&&": ["input.x", "input.y"]}, lambda c, x, y: c.and_(x, y))
    yield F("||", B2, "boolean", {"||": ["input.x", "input.y"]}, lambda c, x, y: c.or_(x, y))
    yield F("^^", B2, "boolean", {"^^": ["input.x", "input.y"]}, lambda c, x, y: c.not_(c.eq(x, y)))
    yield F("!", {"x": "boolean"}, "boolean", {"!": ["input.x"]}, lambda c, x: c.not_(x))
    yield shortcircuit("&&", False)
    yield shortcircuit("||", True)
    KX = {"x": KB, "y": KB}
    kg = {"x": kleene, "y": kleene}
    yield F("&&&", KX, KB, {"&&&": ["input.x", "input.y"]}, kand, gens=kg)
    yield F("|||", KX, KB, {"|||": ["input.x", "input.y"]}, kor, gens=kg)
    yield F("!!!", {"x": KB}, KB, {"!!!": ["input.x"]}, knot, gens=kg)
    yield kshort("&&&", False)
    yield kshort("|||", True)
    # plain booleans as operands of Kleene operators
    yield F("&&& plain", B2, KB, {"&&&": ["input.x", "input.y"]}, lambda c, x, y: {"boolean": c.and_(x, y)})
    yield F("||| plain", B2, KB, {"|||": ["input.x", "input.y"]}, lambda c, x, y: {"boolean": c.or_(x, y)})
    yield F("!!! plain", {"x": "boolean"}, KB, {"!!!": ["input.x"]}, lambda c, x: {"boolean": c.not_(x)})
    for t in ("int", "long"):
        yield bitwise("&", t, lambda c, x, y: x & y)
        yield bitwise("|", t, lambda c, x, y: x | y)
        yield bitwise("^", t, lambda c, x, y: x ^ y)
        yield bitwise("~", t, lambda c, x: ~x)
    yield m1("m.round", m_round("long", 27190), "long", qms=20000)
    yield m1("m.round", m_round("int", 27190), "int", t="float", qms=20000)
    yield F("m.rint", {"x": "double"}, "double", {"m.rint": ["input.x"]}, m_rint, gens={"x": lambda c, n: c.choice("k", [0.0, float("nan"), float("inf"), -float("inf")]) or small(c, n)}, bound="m.rint: |x| <= 1000 and non-finite")
    yield m1("m.ceil", lambda c, x: x if nonfinite(x) else -math.floor(-x))
    yield m1("m.floor", lambda c, x: x if nonfinite(x) else math.floor(x))
    yield m1("m.signum", m_signum, "int")
    yield m1("m.sqrt", m_sqrt)
    yield m1("m.ln", m_ln)
    yield m1("m.log10", m_log10)
    yield m1("m.ln1p", m_ln1p)
    yield F("m.log", {"x": "double", "b": "int"}, "double", {"m.log": ["input.x", "input.b"]}, m_log, gens={"x": special})
    for n, f in (("sin", math.sin), ("cos", math.cos), ("tan", math.tan)):
        yield m1("m." + n, trig(f))
    for n, f in (("asin", math.asin), ("acos", math.acos)):
        yield m1("m." + n, arc(f))
    yield m1("m.atan", lambda c, x: math.atan(x))
    yield m1("m.tanh", lambda c, x: math.tanh(x))
    yield m1("m.exp", expo(math.exp, inf, 0.0))
    yield m1("m.expm1", expo(lambda x: math.exp(x) - 1.0, inf, -1.0))
    yield m1("m.sinh", expo(math.sinh, inf, -inf))
    yield m1("m.cosh", expo(math.cosh, inf, inf))
    yield F("m.hypot", {"x": "double", "y": "double"}, "double", {"m.hypot": ["input.x", "input.y"]}, m_hypot, gens={"x": special, "y": special})
    yield F("m.atan2", {"y": "double", "x": "double"}, "double", {"m.atan2": ["input.y", "input.x"]}, lambda c, y, x: math.atan2(y, x))


def fit_div(c, t, v):
    """The only quotient that does not fit is MIN // -1."""
    lo, hi, _ = RANGE[t]
    if v > hi:
        if c.known("floordiv-min", True):
            raise Err(SKIP)
        raise Err(18041)
    return v
