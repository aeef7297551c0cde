"""C37: producer.transformation.Transformation computes the same from numpy columns as its PFA expression does from records."""
import math

import numpy as _np

from harness.lib import *
from harness.npobj import vector, table, symbolic, Obj

D = "double"


def floored(a, b):
    return a - b * math.floor(a / b)


def truncated(a, b):
    q = a / b
    return a - b * (math.floor(q) if q >= 0 else math.ceil(q))


def even(x):
    n = math.floor(x + 0.5)
    if x + 0.5 == n and n % 2 == 1:
        n -= 1
    return n


def each(f, *xs):
    xs = _np.broadcast_arrays(*[_np.asarray(x, dtype=object) for x in xs])
    out = _np.empty(xs[0].shape, dtype=object)
    for i in _np.ndindex(xs[0].shape):
        out[i] = f(*[x[i] for x in xs])
    return out.view(Obj)


class Columns(object):
    """what numpy's functions do to columns of symbolic numbers"""
    TABLE = {
        "add": lambda a, b: a + b, "subtract": lambda a, b: a - b, "multiply": lambda a, b: a * b, "true_divide": lambda a, b: a / b,
        "negative": lambda a: -a, "power": lambda a, b: a ** b, "mod": floored, "remainder": floored, "fmod": truncated, "floor_divide": lambda a, b: math.floor(a / b),
        "equal": lambda a, b: a == b, "not_equal": lambda a, b: a != b, "greater": lambda a, b: a > b, "greater_equal": lambda a, b: a >= b,
        "less": lambda a, b: a < b, "less_equal": lambda a, b: a <= b,
        "logical_and": lambda a, b: bool(a) and bool(b), "logical_or": lambda a, b: bool(a) or bool(b), "logical_xor": lambda a, b: bool(a) != bool(b), "logical_not": lambda a: not bool(a),
        "bitwise_and": lambda a, b: a & b, "bitwise_or": lambda a, b: a | b,
        "absolute": lambda a: abs(a), "ceil": lambda a: math.ceil(a), "floor": lambda a: math.floor(a), "rint": even, "round": even, "trunc": lambda a: math.floor(a) if a >= 0 else math.ceil(a),
        "sqrt": lambda a: math.sqrt(a), "exp": lambda a: math.exp(a), "expm1": lambda a: math.exp(a) - 1, "log": lambda a: math.log(a), "log10": lambda a: math.log10(a), "log1p": lambda a: math.log1p(a),
        "sin": lambda a: math.sin(a), "cos": lambda a: math.cos(a), "tan": lambda a: math.tan(a), "sinh": lambda a: math.sinh(a), "cosh": lambda a: math.cosh(a), "tanh": lambda a: math.tanh(a),
        "arcsin": lambda a: math.asin(a), "arccos": lambda a: math.acos(a), "arctan": lambda a: math.atan(a), "arctan2": lambda a, b: math.atan2(a, b),
        "hypot": lambda a, b: math.sqrt(a * a + b * b), "copysign": lambda a, b: math.copysign(a, b),
    }

    def __getattr__(self, k):
        if k in self.TABLE:
            f = self.TABLE[k]
            return lambda *xs: each(f, *xs)
        return getattr(_np, k)


CASES = [
    # name, expressions, field -> kind ("any", "nonzero", "positive", "unit", "bool"), output type
    ("plus", ["x + y"], "any", "any"), ("minus", ["x - y"], "any", "any"), ("times", ["x * y"], "any", "any"), ("divide", ["x / y"], "any", "nonzero"),
    ("minus sign", ["-x + y"], "any", "any"), ("modulo", ["x % y"], "any", "nonzero"), ("remainder", ["x %% y"], "any", "nonzero"),
    ("square", ["x ** 2 + y"], "any", "any"), ("abs", ["m.abs(x) - y"], "any", "any"), ("ceil", ["m.ceil(x) + m.floor(y)"], "any", "any"),
    ("round", ["m.round(x)", "m.rint(y)"], "any", "any"), ("sqrt", ["m.sqrt(x) + y"], "positive", "any"), ("precedence", ["x + y * 3 - x / 2"], "any", "any"),
    ("nested", ["(x + 1) * (y - 2)", "m.abs(x - y) / 4"], "any", "any"), ("exp", ["m.exp(x)", "m.expm1(y)"], "any", "any"), ("logs", ["m.ln(x)", "m.log10(x)"], "positive", "any"),
    ("circular", ["m.sin(x)", "m.cos(y)", "m.tan(x)"], "any", "any"), ("hyperbolic", ["m.sinh(x)", "m.cosh(y)", "m.tanh(x)"], "any", "any"),
    ("inverse", ["m.asin(x)", "m.acos(x)", "m.atan(y)", "m.atan2(y, x)"], "unit", "any"), ("hypot", ["m.hypot(x, y)"], "any", "any"), ("copysign", ["m.copysign(x, y)"], "any", "nonzero"),
    ("constants", ["x * m.pi()", "y - m.e()"], "any", "any"), ("only one field", ["x + 1"], "any", "any"),
]

LOGIC = ["x == y", "x != y", "x < y", "x <= y", "x > y", "x >= y", "x < y && y < 2", "x < y || y < 2", "x < y ^^ y < 2", "!(x < y)", "x < 1 && (y < 2 || x > 0)"]


def number(c, nm, kind):
    x = c.real(nm, -6, 6)
    if kind == "nonzero":
        c.assume(c.or_(x >= 0.25, x <= -0.25))
    elif kind == "positive":
        c.assume(x >= 0.125)
    elif kind == "unit":
        c.assume(c.and_(x > -1, x < 1))
    return x


def build(exprs, out, form):
    from titus.producer.transformation import Transformation
    t = Transformation(*exprs)
    doc = {"input": {"type": "record", "name": "In", "fields": [{"name": "x", "type": D}, {"name": "y", "type": D}]}}
    subs = {"x": "input.x", "y": "input.y"}
    arr = {"type": "array", "items": out}
    if form == "array":
        doc["output"] = arr
        doc["action"] = t.new(arr, **subs)
    elif form == "map":
        m = {"type": "map", "values": out}
        doc["output"] = m
        doc["action"] = t.new(m, subs)
    elif form == "record":
        r = {"type": "record", "name": "Out", "fields": [{"name": "_%d" % i, "type": out} for i in range(len(exprs))]}
        doc["output"] = r
        doc["action"] = t.new(r, **subs)
    elif form == "let":
        doc["output"] = arr
        doc["action"] = [t.let(**subs), {"type": arr, "new": ["_%d" % i for i in range(len(exprs))]}]
    else:
        doc["output"] = arr
        doc["action"] = {"type": arr, "new": [t.expr("_%d" % i, **subs) for i in range(len(exprs))]}
    return make_engine(doc), t


def columns(c, t, cols, how):
    """the transformed columns, as lists in the order of the expressions"""
    from titus.producer import transformation as T
    if not hasattr(_np, "core") or not hasattr(_np.core, "records"):
        _np.core = _np._core
        _np.core.records = _np.rec
    spaces = T.Transformation.namespace
    old = spaces["numpy"]
    if symbolic(c):
        spaces["numpy"] = Columns()
    try:
        if how == "table":
            names = sorted(cols)
            out = t.transform(table(c, [[cols[k][i] for k in names] for i in range(2)]), fieldNames=names)
            return [[out[i, k] for i in range(2)] for k in range(len(t.order))]
        if how == "reversed table":
            names = sorted(cols, reverse=True)
            out = t.transform(table(c, [[cols[k][i] for k in names] for i in range(2)]), fieldNames=names)
            return [[out[i, k] for i in range(2)] for k in range(len(t.order))]
        if how == "records":
            data = _np.rec.fromarrays([vector(c, cols[k]).view(_np.ndarray) for k in ("y", "x")], names=["y", "x"])
            out = t.transform(data)
            return [list(out[k]) for k in t.order]
        out = t.transform(dict((k, vector(c, v)) for k, v in cols.items()))
        return [[v for v in out[k]] for k in t.order]
    finally:
        spaces["numpy"] = old


FORMS = ("array", "map", "record", "let", "expr")


def same(name, exprs, kx, ky, out, form, how):
    def setup():
        return build(exprs, out, form)

    def fn(c, env):
        engine, t = env
        x, y = number(c, "x", kx), number(c, "y", ky)
        if out == "boolean" and c.choice("equal", [False, True]):
            c.assume(x == y)
        got = act(engine, {"x": x, "y": y})
        if got[0] != "ok":
            return c.fail("transformation: unexpected error %s" % (got[1],))
        vals = got[1]
        if form in ("map", "record"):
            c.check(len(vals) == len(exprs), "transformation: one value per expression")
            vals = [vals["_%d" % i] for i in range(len(exprs))]
        cols = columns(c, t, {"x": [0.5, x], "y": [0.75, y]}, how)
        c.check(len(cols) == len(vals), "transformation: one column per expression")
        for e, v, col in zip(exprs, vals, cols):
            if not hasattr(col, "__len__"):
                col = [col, col]
            if out == "boolean":
                c.check(bool(col[1]) == v, "transformation: %s" % e)
            elif "%" in e:
                # (rounding of the quotient may move a remainder by a whole divisor)
                c.check(c.or_(c.eq(col[1], v, 1e-6), c.eq(col[1] - v, y, 1e-6) if symbolic(c) is False and abs(abs(col[1] - v) - abs(y)) < 1e-6 and min(abs(v), abs(col[1])) < 1e-6 else False), "transformation: %s" % e)
            else:
                c.check(c.eq(col[1], v, 1e-6), "transformation: %s" % e)
    return Job("%s as %s from %s" % (name, form, how), fn, setup, limit=60, qms=4000, bound="one symbolic row, numbers in [-6, 6]")


def text():
    """strings in an expression are literals, not fields"""
    def setup():
        from titus.producer.transformation import Transformation
        return Transformation('x == "y"', 'y + 1'), make_engine({"input": {"type": "record", "name": "In", "fields": [{"name": "x", "type": "string"}, {"name": "y", "type": D}]}, "output": "boolean",
                                                                 "action": Transformation('x == "y"').expr(x="input.x", y="input.y")})

    def fn(c, env):
        t, engine = env
        s = c.choice("s", ["y", "x", "input.y", ""])
        y = c.real("y", -4, 4)
        c.check(t.fields == ["x", "y"], "transformation: fields")
        c.check(act(engine, {"x": s, "y": y}) == ("ok", s == "y"), "transformation: literal string in PFA")
        e = t.expr("_1", y="z")
        c.check(e == {"+": ["z", 1]}, "transformation: substitution")
        from titus.producer.transformation import Transformation
        c.check(Transformation('"two words"').fields == [], "transformation: a literal is no field")
    return Job("literal strings", fn, setup, limit=30, bound="four strings")


def names():
    """keyword expressions keep their names and order; unknown columns are refused"""
    def setup():
        from titus.producer.transformation import Transformation
        return Transformation("x * 2", b="y + x", a="x - y")

    def fn(c, t):
        x, y = c.real("x", -4, 4), c.real("y", -4, 4)
        c.check(t.order == ["_0", "a", "b"], "transformation: positional first, then by name")
        cols = columns(c, t, {"x": [0.0, x], "y": [0.0, y]}, c.choice("how", ["table", "reversed table", "dict", "records"]))
        for got, want in zip(cols, (x * 2, x - y, y + x)):
            c.check(c.eq(got[1], want, 1e-9), "transformation: column order")
        try:
            columns(c, t, {"x": [0.0, x], "z": [0.0, y]}, "dict")
            c.fail("transformation: missing column accepted")
        except TypeError:
            c.check(True, "transformation: missing column refused")
    return Job("named expressions", fn, setup, limit=30, bound="one symbolic row")


def jobs(tier):
    deep = tier == "thorough"
    out = []
    hows = ("dict", "table", "reversed table", "records")
    k = 0
    for name, exprs, kx, ky in CASES:
        for f in FORMS if deep else (FORMS[k % 5],):
            for h in hows if deep else (hows[k % 4],):
                if name == "only one field" and h != "dict":
                    h = "dict"
                out.append(same(name, exprs, kx, ky, D, f, h))
        k += 1
    for e in LOGIC:
        for f in ("expr", "array") if deep else ("expr",):
            out.append(same(e, [e], "any", "any", "boolean", f, hows[k % 4] if deep else "dict"))
        k += 1
    out += [text(), names()]
    return out
