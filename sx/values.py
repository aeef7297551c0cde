"""Symbolic values. None subclasses the Python type it stands for; `__class__` reports it."""
import math
from fractions import Fraction
import types
import z3
from sx import core


class Sym(object):
    __slots__ = ()

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __reduce__(self):
        raise core.Unsupported("pickle")

    def __hash__(self):
        c = core.CTX
        if c is not None:
            c.symkeys = True
        return 0x5eed

    def __format__(self, spec):
        return self._fmt(spec)

    def _fmt(self, spec):
        core.CTX.unsupported("native format of symbolic value")


def is_sym(x):
    return isinstance(type(x), type) and issubclass(type(x), Sym)


def has_sym(x, depth=6):
    t = type(x)
    if issubclass(t, Sym):
        return True
    if t in (int, float, str, bool, type(None), bytes):
        return False
    if depth == 0:
        return False
    if t in (list, tuple, set, frozenset):
        for y in x:
            if has_sym(y, depth - 1):
                return True
        return False
    if isinstance(x, dict):
        for k, v in dict.items(x):
            if has_sym(k, depth - 1) or has_sym(v, depth - 1):
                return True
        return False
    if t is types.MappingProxyType:
        return has_sym(dict(x), depth)
    return False


def mk(e):
    """Wrap a z3 expression, folding constants."""
    e = z3.simplify(e) if False else e
    s = e.sort()
    k = s.kind()
    if k == z3.Z3_BOOL_SORT:
        return SymBool(e)
    if k == z3.Z3_INT_SORT:
        return SymInt(e)
    if k == z3.Z3_REAL_SORT:
        return SymReal(e)
    if k == z3.Z3_BV_SORT:
        return SymBV(e)
    if k == z3.Z3_FLOATING_POINT_SORT:
        return SymFP(e)
    raise TypeError(s)


def mkbool(e):
    if isinstance(e, bool):
        return e
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return SymBool(e)


def b2z(x):
    """truth of x as z3 Bool or Python bool, no fork"""
    t = type(x)
    if t is SymBool:
        return x.e
    if t is bool:
        return x
    if t is SymInt:
        return x.e != 0
    if t is SymReal:
        return x.e != 0
    if t is SymBV:
        return x.e != 0
    if t is SymFP:
        return z3.Not(z3.fpIsZero(x.e))
    return bool(x)


def _and(*xs):
    out = []
    for x in xs:
        if x is True:
            continue
        if x is False:
            return False
        out.append(x)
    if not out:
        return True
    if len(out) == 1:
        return out[0]
    return z3.And(*out)


def _or(*xs):
    out = []
    for x in xs:
        if x is False:
            continue
        if x is True:
            return True
        out.append(x)
    if not out:
        return False
    if len(out) == 1:
        return out[0]
    return z3.Or(*out)


def _not(x):
    if isinstance(x, bool):
        return not x
    return z3.Not(x)


class SymBool(Sym):
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    @property
    def __class__(self):
        return bool

    def __bool__(self):
        return core.CTX.branch(self.e)

    def __repr__(self):
        return "SymBool(%s)" % self.e

    def _int(self):
        if core.CTX is not None and core.CTX.mode == "fp":
            return SymBV(z3.If(self.e, z3.BitVecVal(1, 2), z3.BitVecVal(0, 2)))
        return SymInt(z3.If(self.e, z3.IntVal(1), z3.IntVal(0)))

    def __eq__(self, o):
        if type(o) is SymBool:
            return mkbool(self.e == o.e)
        if type(o) is bool:
            return SymBool(self.e) if o else SymBool(z3.Not(self.e))
        if isinstance(o, (int, float)):
            return self._int() == o
        return False

    def __ne__(self, o):
        return sx_not(self.__eq__(o))

    __hash__ = Sym.__hash__

    def __and__(self, o):
        if type(o) in (bool, SymBool):
            return mkbool(_and(self.e, b2z(o)))
        return self._int() & o
    __rand__ = __and__

    def __or__(self, o):
        if type(o) in (bool, SymBool):
            return mkbool(_or(self.e, b2z(o)))
        return self._int() | o
    __ror__ = __or__

    def __xor__(self, o):
        if type(o) in (bool, SymBool):
            z = b2z(o)
            return mkbool(z3.Xor(self.e, z3.BoolVal(z) if isinstance(z, bool) else z))
        return self._int() ^ o
    __rxor__ = __xor__

    def __int__(self):
        return int(bool(self))
    __index__ = __int__

    def __float__(self):
        return float(bool(self))


def _fwd(name):
    def f(self, o):
        return getattr(self._int(), name)(o)
    return f


for _n in ("add", "radd", "sub", "rsub", "mul", "rmul", "truediv", "rtruediv", "floordiv", "rfloordiv", "mod", "rmod",
           "lt", "le", "gt", "ge", "pow", "rpow", "lshift", "rshift"):
    setattr(SymBool, "__%s__" % _n, _fwd("__%s__" % _n))
SymBool.__neg__ = lambda self: -self._int()
SymBool.__abs__ = lambda self: self._int()
SymBool.__invert__ = lambda self: ~self._int()


def sx_not(x):
    t = type(x)
    if t is SymBool:
        return mkbool(z3.Not(x.e))
    if issubclass(t, Sym):
        z = b2z(x)
        return mkbool(_not(z))
    return not x


def _concretize(self):
    """Enumerate the values of a symbolic integer by forking (bounded)."""
    c = core.CTX
    if c is None:
        raise core.Unsupported("no context")
    c.stats["concretized"] += 1
    e = z3.simplify(self.e)
    if z3.is_int_value(e):
        return e.as_long()
    if z3.is_bv_value(e):
        return e.as_signed_long()
    for _ in range(c.max_concretize):
        if c.pos < len(c.trace):
            # re-execution: the recorded branch tells which value was tried here
            v = c.hints.get(c.trace[c.pos].key.get_id()) if c.trace[c.pos].kind == "b" else None
            if v is None:
                raise core.EngineError("nondeterministic re-execution (concretize)")
        else:
            mv = c.getmodel().eval(e, model_completion=True)
            v = mv.as_long() if z3.is_int_value(mv) else mv.as_signed_long()
        cond = z3.simplify(self.e == v)
        c2 = z3.simplify(cond)
        c.hints[cond.get_id()] = c.hints[c2.get_id()] = v
        c.keep += [cond, c2]
        if c.branch(cond):
            return v
    c.unsupported("concretization bound exceeded")


class SymInt(Sym):
    """Mathematical integer (Python int)."""
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    @property
    def __class__(self):
        return int

    def __repr__(self):
        return "SymInt(%s)" % self.e

    def __bool__(self):
        return core.CTX.branch(self.e != 0)

    __hash__ = Sym.__hash__

    def __index__(self):
        return _concretize(self)
    __int__ = __index__

    def __float__(self):
        return float(_concretize(self))

    def __neg__(self):
        return SymInt(-self.e)

    def __pos__(self):
        return self

    def __abs__(self):
        return SymInt(z3.If(self.e >= 0, self.e, -self.e))

    def __invert__(self):
        return SymInt(-self.e - 1)

    def __floor__(self):
        return self

    __ceil__ = __trunc__ = __floor__

    def __round__(self, n=None):
        return self

    def conjugate(self):
        return self

    @property
    def real(self):
        return self

    def bit_length(self):
        core.CTX.unsupported("bit_length")


def _ci(o):
    """coerce to z3 Int expr or None"""
    t = type(o)
    if t is SymInt:
        return o.e
    if t is int:
        return z3.IntVal(o)
    if t is bool:
        return z3.IntVal(int(o))
    if t is SymBool:
        return z3.If(o.e, z3.IntVal(1), z3.IntVal(0))
    return None


def _rv(f):
    if isinstance(f, int):
        return z3.RealVal(f)
    fr = Fraction(f)
    return z3.RealVal("%d/%d" % (fr.numerator, fr.denominator)) if fr.denominator != 1 else z3.RealVal(fr.numerator)


NONFIN = object()


def _cr(o):
    """coerce to z3 Real, NONFIN for inf/nan floats, or None"""
    t = type(o)
    if t is SymReal:
        return o.e
    if t is SymInt:
        return z3.ToReal(o.e)
    if t is float:
        if math.isnan(o) or math.isinf(o):
            return NONFIN
        return _rv(o)
    if t is int or t is bool:
        return _rv(int(o))
    if t is SymBool:
        return z3.If(o.e, z3.RealVal(1), z3.RealVal(0))
    if isinstance(o, float):
        o = float(o)
        if math.isnan(o) or math.isinf(o):
            return NONFIN
        return _rv(o)
    return None


def floordiv_int(a, b):
    if z3.is_int_value(b):
        n = b.as_long()
        return a / b if n > 0 else (-a) / z3.IntVal(-n)
    return z3.If(b > 0, a / b, (-a) / (-b))


def _int_arith(name, swap):
    def f(self, o):
        z = _ci(o)
        if z is None:
            if isinstance(o, float) or type(o) is SymReal:
                r = SymReal(z3.ToReal(self.e))
                return getattr(r, "__%s%s__" % ("r" if swap else "", name))(o)
            if name == "mul" and isinstance(o, (list, str, tuple, bytes)):
                n = _clampcount(self)
                return rt_repeat(o, n)
            return NotImplemented
        a, b = (z, self.e) if swap else (self.e, z)
        if name == "add":
            return SymInt(a + b)
        if name == "sub":
            return SymInt(a - b)
        if name == "mul":
            return SymInt(a * b)
        if name == "floordiv":
            if core.CTX.branch(b == 0):
                raise ZeroDivisionError("integer division or modulo by zero")
            return SymInt(floordiv_int(a, b))
        if name == "mod":
            if core.CTX.branch(b == 0):
                raise ZeroDivisionError("integer division or modulo by zero")
            return SymInt(a - b * floordiv_int(a, b))
        if name == "truediv":
            if core.CTX.branch(b == 0):
                raise ZeroDivisionError("division by zero")
            return SymReal(z3.ToReal(a) / z3.ToReal(b))
    return f


def _clampcount(n):
    """list repetition count: negative behaves as zero"""
    if core.CTX.branch(n.e <= 0):
        return 0
    return _concretize(n)


def rt_repeat(o, n):
    if type(o) is SymStr:
        return SymStr(o.cs * n)
    return o * n


for _n in ("add", "sub", "mul", "floordiv", "mod", "truediv"):
    setattr(SymInt, "__%s__" % _n, _int_arith(_n, False))
    setattr(SymInt, "__r%s__" % _n, _int_arith(_n, True))


def _int_divmod(self, o):
    return (self // o, self % o)


SymInt.__divmod__ = _int_divmod
SymInt.__rdivmod__ = lambda self, o: (o // self, o % self)


def _cmp_int(name):
    def f(self, o):
        z = _ci(o)
        if z is None:
            if isinstance(o, float) or type(o) is SymReal:
                return getattr(SymReal(z3.ToReal(self.e)), name)(o)
            if name == "__eq__":
                return False
            if name == "__ne__":
                return True
            return NotImplemented
        a, b = self.e, z
        return mkbool({"__eq__": lambda: a == b, "__ne__": lambda: a != b, "__lt__": lambda: a < b,
                       "__le__": lambda: a <= b, "__gt__": lambda: a > b, "__ge__": lambda: a >= b}[name]())
    return f


for _n in ("__eq__", "__ne__", "__lt__", "__le__", "__gt__", "__ge__"):
    setattr(SymInt, _n, _cmp_int(_n))
SymInt.__hash__ = Sym.__hash__


def _bitlike(z):
    """Syntactically an arithmetic shift to the sign or the negation of a low bit."""
    if z3.is_app_of(z, z3.Z3_OP_UMINUS):
        y = z.arg(0)
        return z3.is_mod(y) and z3.is_int_value(y.arg(1)) and y.arg(1).as_long() == 2
    return z3.is_idiv(z) and z3.is_int_value(z.arg(1)) and z.arg(1).as_long() == 1 << 63


def _ranged(z, n):
    return z3.is_mod(z) and z3.is_int_value(z.arg(1)) and 0 < z.arg(1).as_long() <= n


def _interval(e, depth=12):
    """Bounds of an integer term by interval arithmetic over its syntax, or None."""
    if z3.is_int_value(e):
        n = e.as_long()
        return n, n
    if depth == 0:
        return None
    d = e.decl().kind()
    if d == z3.Z3_OP_UNINTERPRETED:
        return core.CTX.ranges.get(e.decl().name()) if e.num_args() == 0 else None
    if d == z3.Z3_OP_ITE:
        known = core.CTX.ranges.get(("id", e.get_id()))
        if known is not None:
            return known[0]
        xs = [_interval(x, depth - 1) for x in e.children()[1:]]
    elif d in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_MUL, z3.Z3_OP_UMINUS):
        xs = [_interval(x, depth - 1) for x in e.children()]
    else:
        return None
    if any(x is None for x in xs):
        return None
    if d == z3.Z3_OP_ITE:
        return min(x[0] for x in xs), max(x[1] for x in xs)
    lo, hi = xs[0]
    if d == z3.Z3_OP_UMINUS:
        return -hi, -lo
    for a, b in xs[1:]:
        if d == z3.Z3_OP_ADD:
            lo, hi = lo + a, hi + b
        elif d == z3.Z3_OP_SUB:
            lo, hi = lo - b, hi - a
        else:
            ps = [lo * a, lo * b, hi * a, hi * b]
            lo, hi = min(ps), max(ps)
    return lo, hi


def _int_bit(name, swap):
    def f(self, o):
        z = _ci(o)
        if z is None:
            return NotImplemented
        # special cases that stay in integer arithmetic
        if isinstance(o, (int, bool)) and type(o) in (int, bool):
            n = int(o)
            if name == "lshift" and not swap:
                if n < 0:
                    raise ValueError("negative shift count")
                return SymInt(self.e * (1 << n))
            if name == "rshift" and not swap:
                if n < 0:
                    raise ValueError("negative shift count")
                return SymInt(self.e / z3.IntVal(1 << n))
            if name == "and" and n >= 0 and (n & (n + 1)) == 0:
                return SymInt(self.e % z3.IntVal(n + 1))
            if name == "and" and n > 0 and (n & (n - 1)) == 0:
                return SymInt((self.e / z3.IntVal(n)) % 2 * n)
            if name == "and" and n < 0 and (n & -n) == -n:
                return SymInt(self.e - self.e % z3.IntVal(-n))
            if name == "or" and n > 0 and (n & (n - 1)) == 0 and _ranged(self.e, n):
                return SymInt(self.e + n)
        elif name == "xor" and _bitlike(z):
            if core.CTX.branch(z == 0):
                return self
            if core.CTX.branch(z == -1):
                return SymInt(-self.e - 1)
        elif name == "or":
            for a, b in ((self.e, z), (z, self.e)):
                if z3.is_mul(b) and b.num_args() == 2:
                    k = [x.as_long() for x in b.children() if z3.is_int_value(x)]
                    if k and k[0] > 0 and (k[0] & (k[0] - 1)) == 0 and core.CTX.branch(z3.And(a >= 0, a < k[0])):
                        return SymInt(a + b)
        W = 72
        c = core.CTX
        if name in ("lshift", "rshift"):
            a, b = (o, self) if swap else (self, o)
            n = a  # base
            k = _concretize(b) if type(b) is SymInt else int(b)
            if k < 0:
                raise ValueError("negative shift count")
            return (n * (1 << k)) if name == "lshift" else (n // (1 << k))
        a, b = (z, self.e) if swap else (self.e, z)
        known = [_interval(x) for x in (a, b)]
        if None not in known:
            small = max(max(-lo - 1, hi, 0).bit_length() + 1 for lo, hi in known)
            if small <= 16:
                W = small
        lim = 1 << (W - 1)
        for x in (a, b):
            if W == 72 and not c.branch(z3.And(x >= -lim, x < lim)):
                c.unsupported("bitwise operation beyond 72 bits")
        ba, bb = z3.Int2BV(a, W), z3.Int2BV(b, W)
        r = {"and": lambda: ba & bb, "or": lambda: ba | bb, "xor": lambda: ba ^ bb}[name]()
        out = SymInt(z3.BV2Int(r, is_signed=True))
        if W < 72:
            # keeps the term: its identity is the key
            c.ranges[("id", out.e.get_id())] = ((-lim, lim - 1), out.e)
        return out
    return f


for _n in ("and", "or", "xor", "lshift", "rshift"):
    setattr(SymInt, "__%s__" % _n, _int_bit(_n, False))
    setattr(SymInt, "__r%s__" % _n, _int_bit(_n, True))


def uf(name, *args):
    """Uninterpreted real function of real arguments."""
    f = z3.Function("f_" + name, *([z3.RealSort()] * (len(args) + 1)))
    return f(*args)


def _int_pow(self, o, m=None):
    if m is not None:
        core.CTX.unsupported("3-arg pow")
    if type(o) in (int, bool):
        if o >= 0 and o <= 8:
            r = z3.IntVal(1)
            for _ in range(o):
                r = r * self.e
            return SymInt(r)
        if o < 0 and o >= -8:
            return 1 / SymReal(z3.ToReal(self.e)) ** (-o)
    return SymReal(z3.ToReal(self.e)).__pow__(o)


def _int_rpow(self, o, m=None):
    n = None
    if type(o) in (int, bool):
        k = _concretize(self)
        return o ** k
    return SymReal(z3.ToReal(_ci(o) if _ci(o) is not None else _cr(o))) ** self


SymInt.__pow__ = _int_pow
SymInt.__rpow__ = _int_rpow


class SymReal(Sym):
    """A finite float, as an exact real."""
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    @property
    def __class__(self):
        return float

    def __repr__(self):
        return "SymReal(%s)" % self.e

    def __bool__(self):
        return core.CTX.branch(self.e != 0)

    def __neg__(self):
        return SymReal(-self.e)

    def __pos__(self):
        return self

    def __abs__(self):
        return SymReal(z3.If(self.e >= 0, self.e, -self.e))

    def __float__(self):
        e = z3.simplify(self.e)
        if z3.is_rational_value(e):
            return float(Fraction(e.numerator_as_long(), e.denominator_as_long()))
        core.CTX.unsupported("native float() of symbolic real")

    def __int__(self):
        return SymInt(_trunc(self.e)).__index__()

    def __trunc__(self):
        return SymInt(_trunc(self.e))

    def __floor__(self):
        return SymInt(z3.ToInt(self.e))

    def __ceil__(self):
        return SymInt(-z3.ToInt(-self.e))

    def __round__(self, n=None):
        if n is not None:
            core.CTX.unsupported("round(x, n)")
        return SymInt(_roundeven(self.e))

    def is_integer(self):
        return mkbool(z3.ToReal(z3.ToInt(self.e)) == self.e)

    # numpy object-array ufunc hooks
    def sqrt(self):
        from sx import rt
        return rt.m_sqrt(self)

    def exp(self):
        from sx import rt
        return rt.m_exp(self)

    def log(self):
        from sx import rt
        return rt.m_log(self)

    def conjugate(self):
        return self


def _trunc(r):
    return z3.If(r >= 0, z3.ToInt(r), -z3.ToInt(-r))


def _roundeven(r):
    f = z3.ToInt(r)
    d = r - z3.ToReal(f)
    h = z3.Q(1, 2)
    return z3.If(d < h, f, z3.If(d > h, f + 1, z3.If(f % 2 == 0, f, f + 1)))


def _sgn(e):
    c = core.CTX
    if c.branch(e > 0):
        return 1.0
    if c.branch(e < 0):
        return -1.0
    return 0.0


def _real_arith(name, swap):
    def f(self, o):
        z = _cr(o)
        if z is None:
            return NotImplemented
        if z is NONFIN:
            o = float(o)
            if math.isnan(o):
                return o
            if name == "add":
                return o
            if name == "sub":
                return o if swap else -o
            if name == "mul":
                return _sgn(self.e) * o if True else None
            if name == "truediv":
                if swap:
                    s = _sgn(self.e)
                    if s == 0.0:
                        raise ZeroDivisionError("float division by zero")
                    return s * o
                return 0.0 * (_sgn(self.e) or 1.0) * math.copysign(1.0, o)
            if name == "mod":
                if swap:
                    if core.CTX.branch(self.e == 0):
                        raise ZeroDivisionError("float modulo")
                    return float("nan")
                s = _sgn(self.e)
                if s == 0.0:
                    return 0.0
                return self if (s > 0) == (o > 0) else o
            core.CTX.unsupported("nonfinite " + name)
        a, b = (z, self.e) if swap else (self.e, z)
        if name == "add":
            return SymReal(a + b)
        if name == "sub":
            return SymReal(a - b)
        if name == "mul":
            return SymReal(a * b)
        if core.CTX.branch(b == 0):
            raise ZeroDivisionError("float division by zero")
        if name == "truediv":
            return SymReal(a / b)
        q = z3.ToReal(z3.ToInt(a / b))
        if name == "floordiv":
            return SymReal(q)
        if name == "mod":
            return SymReal(a - b * q)
    return f


for _n in ("add", "sub", "mul", "floordiv", "mod", "truediv"):
    setattr(SymReal, "__%s__" % _n, _real_arith(_n, False))
    setattr(SymReal, "__r%s__" % _n, _real_arith(_n, True))


def _real_pow(self, o, m=None):
    if type(o) in (int, bool, float) and float(o).is_integer() and 0 <= o <= 8:
        r = z3.RealVal(1)
        for _ in range(int(o)):
            r = r * self.e
        return SymReal(r)
    if type(o) in (int, float) and float(o).is_integer() and -8 <= o < 0:
        if core.CTX.branch(self.e == 0):
            raise ZeroDivisionError("0.0 cannot be raised to a negative power")
        r = z3.RealVal(1)
        for _ in range(int(-o)):
            r = r * self.e
        return SymReal(1 / r)
    if type(o) is float and o == 0.5:
        from sx import rt
        if core.CTX.branch(self.e < 0):
            core.CTX.unsupported("complex power")
        return rt.m_sqrt(self)
    z = _cr(o)
    if z is None:
        return NotImplemented
    if z is NONFIN:
        core.CTX.unsupported("pow nonfinite")
    c = core.CTX
    # integer-valued exponents are handled by forking on small values
    if c.branch(self.e <= 0):
        if c.branch(self.e == 0):
            if c.branch(z == 0):
                return 1.0
            if c.branch(z < 0):
                raise ZeroDivisionError("0.0 cannot be raised to a negative power")
            return 0.0
        if c.branch(z3.ToReal(z3.ToInt(z)) != z):
            c.unsupported("complex power")
        return SymReal(uf("pow", self.e, z))
    r = uf("pow", self.e, z)
    c.define(r > 0)
    return SymReal(r)


def _real_rpow(self, o, m=None):
    z = _cr(o)
    if z is None or z is NONFIN:
        core.CTX.unsupported("rpow")
    return _real_pow(SymReal(z), self)


SymReal.__pow__ = _real_pow
SymReal.__rpow__ = _real_rpow
SymReal.__divmod__ = lambda self, o: (self // o, self % o)
SymReal.__rdivmod__ = lambda self, o: (o // self, o % self)


def _cmp_real(name):
    def f(self, o):
        z = _cr(o)
        if z is None:
            if name == "__eq__":
                return False
            if name == "__ne__":
                return True
            return NotImplemented
        if z is NONFIN:
            return getattr(0.0, name)(float(o))
        a, b = self.e, z
        return mkbool({"__eq__": lambda: a == b, "__ne__": lambda: a != b, "__lt__": lambda: a < b,
                       "__le__": lambda: a <= b, "__gt__": lambda: a > b, "__ge__": lambda: a >= b}[name]())
    return f


for _n in ("__eq__", "__ne__", "__lt__", "__le__", "__gt__", "__ge__"):
    setattr(SymReal, _n, _cmp_real(_n))
SymReal.__hash__ = Sym.__hash__


# ------------------------------------------------------------------ exact machine floats and bit-vector integers
RNE = None
F64 = None
F128 = None


def _fpinit():
    global RNE, F64, F128
    if RNE is None:
        RNE, F64, F128 = z3.RNE(), z3.Float64(), z3.Float128()


MAXW = 300


class SymBV(Sym):
    """Python int, as a signed bit-vector wide enough that no operation wraps."""
    __slots__ = ("e", "fp")

    def __init__(self, e, fp=None):
        if e.size() > MAXW:
            core.CTX.unsupported("integer wider than %d bits" % MAXW)
        self.e = e
        self.fp = fp        # the same integer as a float, when it is exactly one (kept to spare conversions)

    @property
    def __class__(self):
        return int

    def __repr__(self):
        return "SymBV(%s)" % self.e

    def __bool__(self):
        return core.CTX.branch(self.e != 0)

    def __index__(self):
        return _concretize(self)
    __int__ = __index__

    def __neg__(self):
        return SymBV(-z3.SignExt(1, self.e))

    def __pos__(self):
        return self

    def __abs__(self):
        x = z3.SignExt(1, self.e)
        return SymBV(z3.If(x < 0, -x, x))

    def __invert__(self):
        return SymBV(~self.e)

    def __floor__(self):
        return self
    __ceil__ = __trunc__ = __floor__

    def __round__(self, n=None):
        return self

    def __float__(self):
        core.CTX.unsupported("native float() of symbolic int")

    def tofp(self):
        _fpinit()
        if self.fp is not None:
            return SymFP(self.fp)
        return SymFP(z3.fpSignedToFP(RNE, self.e, F64))


def _small_fp(v):
    lim = z3.FPVal(2.0 ** 52, F64)
    return core.CTX.branch(z3.And(z3.fpLEQ(v, lim), z3.fpGEQ(v, z3.fpNeg(lim))))


def _cb(o):
    t = type(o)
    if t is SymBV:
        return o.e
    if t is bool:
        o = int(o)
        t = int
    if t is int:
        return z3.BitVecVal(o, max(o.bit_length() + 1, 2))
    if t is SymBool:
        return z3.If(o.e, z3.BitVecVal(1, 2), z3.BitVecVal(0, 2))
    return None


def _ext(e, w):
    return z3.SignExt(w - e.size(), e) if w > e.size() else e


def _align(a, b, extra=0):
    w = max(a.size(), b.size()) + extra
    return _ext(a, w), _ext(b, w)


def _bv_arith(name, swap):
    def f(self, o):
        z = _cb(o)
        if z is None:
            if isinstance(o, float) or type(o) is SymFP:
                return getattr(self.tofp(), "__%s%s__" % ("r" if swap else "", name))(o)
            if name == "mul" and isinstance(o, (list, str, tuple, bytes)):
                if core.CTX.branch(self.e <= 0):
                    return rt_repeat(o, 0)
                return rt_repeat(o, _concretize(self))
            return NotImplemented
        a, b = (z, self.e) if swap else (self.e, z)
        if name in ("add", "sub"):
            a, b = _align(a, b, 1)
            r = SymBV(a + b if name == "add" else a - b)
            if self.fp is not None and type(o) is int and abs(o) <= 1 << 20 and not (swap and name == "sub") and _small_fp(self.fp):
                r.fp = z3.fpAdd(RNE, self.fp, z3.FPVal(float(o if name == "add" else -o), F64))
            return r
        if name == "mul":
            w = a.size() + b.size()
            return SymBV(_ext(a, w) * _ext(b, w))
        if name in ("and", "or", "xor"):
            a, b = _align(a, b)
            return SymBV({"and": lambda: a & b, "or": lambda: a | b, "xor": lambda: a ^ b}[name]())
        if name in ("lshift", "rshift"):
            c = core.CTX
            if c.branch(b < 0):
                raise ValueError("negative shift count")
            if name == "rshift":
                x, y = _align(a, b)
                return SymBV(x >> y)
            if not c.branch(_ext(b, max(b.size(), 9)) <= 128):
                c.unsupported("shift by more than 128")
            eb = z3.simplify(b)
            if z3.is_bv_value(eb):
                n = eb.as_signed_long()
                return SymBV(_ext(a, a.size() + n) << n)
            w = a.size() + 128
            y = z3.Extract(8, 0, _ext(b, max(b.size(), 9)))
            return SymBV(_ext(a, w) << z3.ZeroExt(w - 9, y))
        if core.CTX.branch(b == 0):
            raise ZeroDivisionError("integer division or modulo by zero")
        if name == "truediv":
            return SymBV(a).tofp() / SymBV(b).tofp()
        a, b = _align(a, b, 1)
        if name == "mod":
            return SymBV(a % b)  # bvsmod: sign follows divisor
        r = z3.SRem(a, b)
        q = a / b
        return SymBV(z3.If(z3.And(r != 0, (r < 0) != (b < 0)), q - 1, q))
    return f


for _n in ("add", "sub", "mul", "floordiv", "mod", "truediv", "and", "or", "xor", "lshift", "rshift"):
    setattr(SymBV, "__%s__" % _n, _bv_arith(_n, False))
    setattr(SymBV, "__r%s__" % _n, _bv_arith(_n, True))


def _bv_pow(self, o, m=None):
    if type(o) in (int, bool) and 0 <= o <= 4:
        r = 1
        for _ in range(o):
            r = self * r
        return r
    core.CTX.unsupported("integer power")


SymBV.__pow__ = _bv_pow
SymBV.__rpow__ = lambda self, o, m=None: core.CTX.unsupported("integer power")
SymBV.__divmod__ = lambda self, o: (self // o, self % o)


def _cmp_bv(name):
    def f(self, o):
        z = _cb(o)
        if z is None:
            if isinstance(o, float) or type(o) is SymFP:
                _fpinit()
                if self.fp is not None:
                    return mkbool(_fpcmp(name, self.fp, _cf(o)))
                a = z3.fpSignedToFP(RNE, self.e, F128)
                b = z3.fpToFP(RNE, _cf(o), F128)
                if self.e.size() > 113:
                    core.CTX.unsupported("wide int/float comparison")
                return mkbool(_fpcmp(name, a, b))
            if name == "__eq__":
                return False
            if name == "__ne__":
                return True
            return NotImplemented
        if self.fp is not None and type(o) is int:
            # compare as floats, with the bound moved to a double that separates the same integers
            _fpinit()
            if float(o) == o:
                return mkbool(_fpcmp(name, self.fp, z3.FPVal(float(o), F64)))
            f = float(o)
            if name in ("__le__", "__gt__"):
                f = f if f < o else math.nextafter(f, -math.inf)
            elif name in ("__ge__", "__lt__"):
                f = f if f > o else math.nextafter(f, math.inf)
            if name in ("__eq__", "__ne__"):
                return name == "__ne__"
            return mkbool(_fpcmp(name, self.fp, z3.FPVal(f, F64)))
        a, b = _align(self.e, z)
        return mkbool({"__eq__": lambda: a == b, "__ne__": lambda: a != b, "__lt__": lambda: a < b,
                       "__le__": lambda: a <= b, "__gt__": lambda: a > b, "__ge__": lambda: a >= b}[name]())
    return f


for _n in ("__eq__", "__ne__", "__lt__", "__le__", "__gt__", "__ge__"):
    setattr(SymBV, _n, _cmp_bv(_n))
SymBV.__hash__ = Sym.__hash__


def _fpcmp(name, a, b):
    return {"__eq__": z3.fpEQ, "__ne__": z3.fpNEQ, "__lt__": z3.fpLT, "__le__": z3.fpLEQ, "__gt__": z3.fpGT,
            "__ge__": z3.fpGEQ}[name](a, b)


class SymFP(Sym):
    """A float, as an exact IEEE-754 double."""
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    @property
    def __class__(self):
        return float

    def __repr__(self):
        return "SymFP(%s)" % self.e

    def __bool__(self):
        return core.CTX.branch(z3.Not(z3.fpIsZero(self.e)))

    def __neg__(self):
        return SymFP(z3.fpNeg(self.e))

    def __pos__(self):
        return self

    def __abs__(self):
        return SymFP(z3.fpAbs(self.e))

    def __float__(self):
        e = z3.simplify(self.e)
        if z3.is_fp_value(e):
            return fpval(e)
        core.CTX.unsupported("native float() of symbolic float")

    def __int__(self):
        return _concretize(self.toint("trunc"))

    def toint(self, how):
        """Python int(x)/floor/ceil/round of a float."""
        _fpinit()
        c = core.CTX
        if c.branch(z3.fpIsNaN(self.e)):
            raise ValueError("cannot convert float NaN to integer")
        if c.branch(z3.fpIsInf(self.e)):
            raise OverflowError("cannot convert float infinity to integer")
        big = z3.FPVal(2.0 ** 63, F64)
        if c.branch(z3.And(z3.fpLT(self.e, big), z3.fpGEQ(self.e, z3.fpNeg(big)))):
            rm = {"trunc": z3.RTZ(), "floor": z3.RTN(), "ceil": z3.RTP(), "round": RNE}[how]
            return SymBV(z3.fpToSBV(rm, self.e, z3.BitVecSort(66)), z3.fpRoundToIntegral(rm, self.e))
        # beyond the 64-bit range: an abstract integer of the right sign and magnitude
        v = z3.BitVec(c.fresh("huge"), 128)
        lim = z3.BitVecVal(2 ** 63, 128)
        c.define(z3.If(z3.fpIsNegative(self.e), v < -lim, v >= lim))
        return SymBV(v)

    def __floor__(self):
        return self.toint("floor")

    def __ceil__(self):
        return self.toint("ceil")

    def __trunc__(self):
        return self.toint("trunc")

    def __round__(self, n=None):
        if n is not None:
            core.CTX.unsupported("round(x, n)")
        return self.toint("round")

    def is_integer(self):
        return mkbool(z3.And(z3.Not(z3.fpIsInf(self.e)), z3.fpEQ(z3.fpRoundToIntegral(RNE, self.e), self.e)))


def fpval(e):
    """z3 FP numeral -> Python float"""
    if z3.is_fp(e) and e.isNaN():
        return float("nan")
    if e.isInf():
        return float("-inf") if e.isNegative() else float("inf")
    if e.isZero():
        return -0.0 if e.isNegative() else 0.0
    s = -1 if e.sign() else 1
    sig = e.significand_as_long()
    ex = e.exponent_as_long(False) if not e.isSubnormal() else None
    if e.isSubnormal():
        return s * math.ldexp(sig, -1074)
    return s * math.ldexp((1 << 52) + sig, ex - 52)


def _cf(o):
    _fpinit()
    t = type(o)
    if t is SymFP:
        return o.e
    if isinstance(o, bool) or t is SymBool:
        if t is SymBool:
            return z3.If(o.e, z3.FPVal(1.0, F64), z3.FPVal(0.0, F64))
        o = int(o)
    if t is SymBV:
        return o.tofp().e
    if isinstance(o, float):
        return z3.FPVal(float(o), F64) if not math.isnan(o) else z3.fpNaN(F64)
    if isinstance(o, int):
        return z3.FPVal(float(o), F64)
    return None


def _fp_arith(name, swap):
    def f(self, o):
        z = _cf(o)
        if z is None:
            return NotImplemented
        a, b = (z, self.e) if swap else (self.e, z)
        if name == "add":
            return SymFP(z3.fpAdd(RNE, a, b))
        if name == "sub":
            return SymFP(z3.fpSub(RNE, a, b))
        if name == "mul":
            return SymFP(z3.fpMul(RNE, a, b))
        if core.CTX.branch(z3.fpIsZero(b)):
            raise ZeroDivisionError("float division by zero")
        if name == "truediv":
            return SymFP(z3.fpDiv(RNE, a, b))
        core.CTX.unsupported("float " + name)
    return f


for _n in ("add", "sub", "mul", "floordiv", "mod", "truediv"):
    setattr(SymFP, "__%s__" % _n, _fp_arith(_n, False))
    setattr(SymFP, "__r%s__" % _n, _fp_arith(_n, True))


def _fp_pow(self, o, m=None):
    core.CTX.unsupported("float power")


SymFP.__pow__ = SymFP.__rpow__ = _fp_pow


def _cmp_fp(name):
    refl = {"__eq__": "__eq__", "__ne__": "__ne__", "__lt__": "__gt__", "__le__": "__ge__", "__gt__": "__lt__", "__ge__": "__le__"}

    def f(self, o):
        if type(o) is SymBV:
            return getattr(o, refl[name])(self)
        if type(o) is int and abs(o) > 2 ** 53:
            _fpinit()
            b = z3.fpSignedToFP(RNE, _cb(o), F128)
            return mkbool(_fpcmp(name, z3.fpToFP(RNE, self.e, F128), b))
        z = _cf(o)
        if z is None:
            if name == "__eq__":
                return False
            if name == "__ne__":
                return True
            return NotImplemented
        return mkbool(_fpcmp(name, self.e, z))
    return f


for _n in ("__eq__", "__ne__", "__lt__", "__le__", "__gt__", "__ge__"):
    setattr(SymFP, _n, _cmp_fp(_n))
SymFP.__hash__ = Sym.__hash__


# ------------------------------------------------------------------ text
def _ceq(a, b):
    """equality of two code points -> bool or z3"""
    if type(a) is int and type(b) is int:
        return a == b
    return (z3.IntVal(a) if type(a) is int else a) == (z3.IntVal(b) if type(b) is int else b)


def _clt(a, b):
    if type(a) is int and type(b) is int:
        return a < b
    return (z3.IntVal(a) if type(a) is int else a) < (z3.IntVal(b) if type(b) is int else b)


def seq_eq(a, b):
    if len(a) != len(b):
        return False
    return _and(*[_ceq(x, y) for x, y in zip(a, b)])


def seq_lt(a, b, orequal=False):
    """lexicographic a < b"""
    n = min(len(a), len(b))
    if len(a) < len(b):
        res = True
    elif len(a) > len(b):
        res = False
    else:
        res = orequal
    for i in reversed(range(n)):
        res = _or(_clt(a[i], b[i]), _and(_ceq(a[i], b[i]), res))
    return res


class SymSeq(Sym):
    __slots__ = ("cs",)

    def __init__(self, cs):
        self.cs = tuple(cs)

    def __len__(self):
        return len(self.cs)

    def __bool__(self):
        return len(self.cs) > 0

    def _co(self, o):
        raise NotImplementedError

    def __eq__(self, o):
        z = self._co(o)
        if z is None:
            return False
        return mkbool(seq_eq(self.cs, z))

    def __ne__(self, o):
        return sx_not(self.__eq__(o))

    __hash__ = Sym.__hash__

    def __lt__(self, o):
        z = self._co(o)
        return NotImplemented if z is None else mkbool(seq_lt(self.cs, z))

    def __le__(self, o):
        z = self._co(o)
        return NotImplemented if z is None else mkbool(seq_lt(self.cs, z, True))

    def __gt__(self, o):
        z = self._co(o)
        return NotImplemented if z is None else mkbool(seq_lt(z, self.cs))

    def __ge__(self, o):
        z = self._co(o)
        return NotImplemented if z is None else mkbool(seq_lt(z, self.cs, True))

    def __add__(self, o):
        z = self._co(o)
        return NotImplemented if z is None else self._mk(self.cs + tuple(z))

    def __radd__(self, o):
        z = self._co(o)
        return NotImplemented if z is None else self._mk(tuple(z) + self.cs)

    def __mul__(self, n):
        if isinstance(n, int):
            if is_sym(n):
                n = n.__index__()
            return self._mk(self.cs * n)
        return NotImplemented
    __rmul__ = __mul__

    def _find_at(self, z, i):
        return seq_eq(self.cs[i:i + len(z)], z)

    def _bounds(self, start, end):
        n = len(self.cs)
        s, e, _ = slice(start, end).indices(n)
        return s, e

    def find(self, sub, start=None, end=None):
        z = self._co(sub)
        if z is None:
            raise TypeError("find")
        n = len(self.cs)
        if start is not None and start > n:
            return -1
        s, e = self._bounds(start, end)
        for i in range(s, e - len(z) + 1):
            if core.CTX.branch(self._find_at(z, i)):
                return i
        return -1

    def rfind(self, sub, start=None, end=None):
        z = self._co(sub)
        if z is None:
            raise TypeError("rfind")
        s, e = self._bounds(start, end)
        for i in reversed(range(s, e - len(z) + 1)):
            if core.CTX.branch(self._find_at(z, i)):
                return i
        return -1

    def index(self, sub, *a):
        r = self.find(sub, *a)
        if r < 0:
            raise ValueError("substring not found")
        return r

    def rindex(self, sub, *a):
        r = self.rfind(sub, *a)
        if r < 0:
            raise ValueError("substring not found")
        return r

    def __contains__(self, sub):
        return self.find(sub) >= 0

    def count(self, sub, start=None, end=None):
        z = self._co(sub)
        s, e = self._bounds(start, end)
        if len(z) == 0:
            return e - s + 1
        n, i = 0, s
        while i <= e - len(z):
            if core.CTX.branch(self._find_at(z, i)):
                n += 1
                i += len(z)
            else:
                i += 1
        return n

    def startswith(self, p, *a):
        if a:
            core.CTX.unsupported("startswith range")
        if isinstance(p, tuple):
            return mkbool(_or(*[b2z(self.startswith(q)) for q in p]))
        z = self._co(p)
        if len(z) > len(self.cs):
            return False
        return mkbool(self._find_at(z, 0))

    def endswith(self, p, *a):
        if a:
            core.CTX.unsupported("endswith range")
        if isinstance(p, tuple):
            return mkbool(_or(*[b2z(self.endswith(q)) for q in p]))
        z = self._co(p)
        if len(z) > len(self.cs):
            return False
        return mkbool(self._find_at(z, len(self.cs) - len(z)))

    def replace(self, old, new, cnt=-1):
        o, w = self._co(old), tuple(self._co(new))
        out, i, n = [], 0, 0
        if len(o) == 0:
            for j, ch in enumerate(self.cs):
                if cnt < 0 or n < cnt:
                    out.extend(w)
                    n += 1
                out.append(ch)
            if cnt < 0 or n < cnt:
                out.extend(w)
            return self._mk(out)
        while i < len(self.cs):
            if i + len(o) <= len(self.cs) and (cnt < 0 or n < cnt) and core.CTX.branch(self._find_at(o, i)):
                out.extend(w)
                i += len(o)
                n += 1
            else:
                out.append(self.cs[i])
                i += 1
        return self._mk(out)

    def split(self, sep=None, maxsplit=-1):
        if sep is None:
            return self._splitws(maxsplit)
        z = self._co(sep)
        if len(z) == 0:
            raise ValueError("empty separator")
        out, cur, i, n = [], [], 0, 0
        while i < len(self.cs):
            if i + len(z) <= len(self.cs) and (maxsplit < 0 or n < maxsplit) and core.CTX.branch(self._find_at(z, i)):
                out.append(self._mk(cur))
                cur = []
                i += len(z)
                n += 1
            else:
                cur.append(self.cs[i])
                i += 1
        out.append(self._mk(cur))
        return out

    def _splitws(self, maxsplit):
        if maxsplit >= 0:
            core.CTX.unsupported("split whitespace maxsplit")
        out, cur = [], []
        for ch in self.cs:
            if core.CTX.branch(is_space(ch)):
                if cur:
                    out.append(self._mk(cur))
                    cur = []
            else:
                cur.append(ch)
        if cur:
            out.append(self._mk(cur))
        return out

    def join(self, parts):
        out, first = [], True
        for p in parts:
            z = self._co(p)
            if z is None:
                raise TypeError("sequence item: expected str instance")
            if not first:
                out.extend(self.cs)
            first = False
            out.extend(z)
        return self._mk(out)

    def _strip(self, chars, left, right):
        cs = list(self.cs)
        if chars is None:
            pred = is_space
        else:
            z = self._co(chars)
            pred = lambda ch: _or(*[_ceq(ch, q) for q in z])
        if left:
            while cs and core.CTX.branch(pred(cs[0])):
                cs.pop(0)
        if right:
            while cs and core.CTX.branch(pred(cs[-1])):
                cs.pop()
        return self._mk(cs)

    def strip(self, chars=None):
        return self._strip(chars, True, True)

    def lstrip(self, chars=None):
        return self._strip(chars, True, False)

    def rstrip(self, chars=None):
        return self._strip(chars, False, True)


def _inrange(ch, lo, hi):
    if type(ch) is int:
        return lo <= ch <= hi
    return z3.And(ch >= lo, ch <= hi)


SPACES = (0x09, 0x0d), (0x1c, 0x20), (0x85, 0x85), (0xa0, 0xa0), (0x1680, 0x1680), (0x2000, 0x200a), (0x2028, 0x2029), (0x202f, 0x202f), (0x205f, 0x205f), (0x3000, 0x3000)


def is_space(ch):
    return _or(*[_inrange(ch, a, b) for a, b in SPACES])


def _need_ascii(cs):
    """Case mapping is modelled for ASCII only."""
    for ch in cs:
        if not core.CTX.branch(_inrange(ch, 0, 127)):
            core.CTX.unsupported("case mapping outside ASCII")


class SymStr(SymSeq):
    __slots__ = ()

    @property
    def __class__(self):
        return str

    def _mk(self, cs):
        return mkstr(cs)

    def _co(self, o):
        t = type(o)
        if t is SymStr:
            return o.cs
        if t is str or isinstance(o, str) and not is_sym(o):
            return tuple(map(ord, o))
        if t is Opaque:
            core.CTX.unsupported("opaque text inspected")
        return None

    def __repr__(self):
        return "SymStr%r" % (self.cs,)

    def __getitem__(self, k):
        r = self.cs[k]
        return mkstr(r if isinstance(k, slice) else (r,))

    def __iter__(self):
        for ch in self.cs:
            yield mkstr((ch,))

    def __str__(self):
        v = conc_text(self.cs)
        if v is not None:
            return v
        core.CTX.unsupported("native str() of symbolic string")

    def lower(self):
        _need_ascii(self.cs)
        return mkstr([ch if type(ch) is int and not 65 <= ch <= 90 else (ch + 32 if type(ch) is int else z3.If(z3.And(ch >= 65, ch <= 90), ch + 32, ch)) for ch in self.cs])

    def upper(self):
        _need_ascii(self.cs)
        return mkstr([ch if type(ch) is int and not 97 <= ch <= 122 else (ch - 32 if type(ch) is int else z3.If(z3.And(ch >= 97, ch <= 122), ch - 32, ch)) for ch in self.cs])

    def isdigit(self):
        _need_ascii(self.cs)
        return len(self.cs) > 0 and mkbool(_and(*[_inrange(ch, 48, 57) for ch in self.cs]))
    isdecimal = isnumeric = isdigit

    def isalpha(self):
        _need_ascii(self.cs)
        return len(self.cs) > 0 and mkbool(_and(*[_or(_inrange(ch, 65, 90), _inrange(ch, 97, 122)) for ch in self.cs]))

    def isalnum(self):
        _need_ascii(self.cs)
        return len(self.cs) > 0 and mkbool(_and(*[_or(_inrange(ch, 65, 90), _inrange(ch, 97, 122), _inrange(ch, 48, 57)) for ch in self.cs]))

    def isspace(self):
        return len(self.cs) > 0 and mkbool(_and(*[is_space(ch) for ch in self.cs]))

    def encode(self, enc="utf-8", errors="strict"):
        return encode_text(self.cs, enc, errors)

    def format(self, *a, **k):
        return Opaque()

    def partition(self, sep):
        i = self.find(sep)
        if i < 0:
            return (self, "", "")
        n = len(sep)
        return (self[:i], sep, self[i + n:])

    def rpartition(self, sep):
        i = self.rfind(sep)
        if i < 0:
            return ("", "", self)
        n = len(sep)
        return (self[:i], sep, self[i + n:])

    def rjust(self, n, fill=" "):
        z = tuple(map(ord, fill)) if isinstance(fill, str) and not is_sym(fill) else fill.cs
        return mkstr(z * max(0, n - len(self.cs)) + self.cs)

    def ljust(self, n, fill=" "):
        z = tuple(map(ord, fill)) if isinstance(fill, str) and not is_sym(fill) else fill.cs
        return mkstr(self.cs + z * max(0, n - len(self.cs)))

    def zfill(self, n):
        core.CTX.unsupported("zfill")

    def splitlines(self, *a):
        core.CTX.unsupported("splitlines")

    def translate(self, *a):
        core.CTX.unsupported("translate")


def conc_text(cs):
    if all(type(c) is int for c in cs):
        return "".join(map(chr, cs))
    return None


def mkstr(cs):
    cs = tuple(cs)
    if all(type(c) is int for c in cs):
        return "".join(map(chr, cs))
    return SymStr(cs)


def mkbytes(cs):
    cs = tuple(cs)
    if all(type(c) is int for c in cs):
        return bytes(cs)
    return SymBytes(cs)


class SymBytes(SymSeq):
    __slots__ = ()

    @property
    def __class__(self):
        return bytes

    def _mk(self, cs):
        return mkbytes(cs)

    def _co(self, o):
        t = type(o)
        if t is SymBytes:
            return o.cs
        if t is bytes or t is bytearray:
            return tuple(o)
        return None

    def __repr__(self):
        return "SymBytes%r" % (self.cs,)

    def __getitem__(self, k):
        r = self.cs[k]
        if isinstance(k, slice):
            return mkbytes(r)
        return r if type(r) is int else SymInt(r)

    def __iter__(self):
        for ch in self.cs:
            yield ch if type(ch) is int else SymInt(ch)

    def decode(self, enc="utf-8", errors="strict"):
        return decode_bytes(self.cs, enc, errors)

    def __bytes__(self):
        core.CTX.unsupported("native bytes()")


def _norm(enc):
    return enc.lower().replace("_", "-")


def encode_text(cs, enc, errors):
    c = core.CTX
    enc = _norm(enc)
    lim = {"ascii": 127, "us-ascii": 127, "latin-1": 255, "iso-8859-1": 255, "latin1": 255, "l1": 255}.get(enc)
    if lim is not None:
        for i, ch in enumerate(cs):
            if not c.branch(_inrange(ch, 0, lim)):
                if errors == "strict":
                    raise UnicodeEncodeError(enc, "?", 0, 1, "ordinal not in range")
                c.unsupported("encode errors=" + errors)
        return mkbytes(cs)
    if enc in ("utf-8", "utf8"):
        out = []
        for ch in cs:
            if c.branch(_inrange(ch, 0, 0x7f)):
                out.append(ch)
            elif c.branch(_inrange(ch, 0x80, 0x7ff)):
                out += [0xc0 + ch / 64, 0x80 + ch % 64] if type(ch) is not int else list(chr(ch).encode())
            elif c.branch(_inrange(ch, 0xd800, 0xdfff)):
                raise UnicodeEncodeError(enc, "?", 0, 1, "surrogates not allowed")
            elif type(ch) is int:
                out += list(chr(ch).encode("utf-8"))
            elif c.branch(_inrange(ch, 0x800, 0xffff)):
                out += [0xe0 + ch / 4096, 0x80 + (ch / 64) % 64, 0x80 + ch % 64]
            else:
                out += [0xf0 + ch / 262144, 0x80 + (ch / 4096) % 64, 0x80 + (ch / 64) % 64, 0x80 + ch % 64]
        return mkbytes(out)
    if enc in ("utf-16be", "utf-16-be", "utf-16le", "utf-16-le", "utf-16"):
        out = []
        le = not enc.endswith("be")
        if enc == "utf-16":
            out += [0xff, 0xfe]

        def unit(u):
            hi, lo = (u // 256, u % 256) if type(u) is int else (u / 256, u % 256)
            return [lo, hi] if le else [hi, lo]
        for ch in cs:
            if c.branch(_inrange(ch, 0xd800, 0xdfff)):
                raise UnicodeEncodeError(enc, "?", 0, 1, "surrogates not allowed")
            if c.branch(_inrange(ch, 0, 0xffff)):
                out += unit(ch)
            else:
                v = ch - 0x10000
                hi = 0xd800 + (v // 1024 if type(v) is int else v / 1024)
                lo = 0xdc00 + v % 1024
                out += unit(hi) + unit(lo)
        return mkbytes(out)
    c.unsupported("encode " + enc)


def decode_bytes(cs, enc, errors):
    c = core.CTX
    enc = _norm(enc)
    if enc in ("latin-1", "iso-8859-1", "latin1", "l1"):
        return mkstr(cs)
    if enc in ("ascii", "us-ascii"):
        for ch in cs:
            if not c.branch(_inrange(ch, 0, 127)):
                raise UnicodeDecodeError(enc, b"?", 0, 1, "ordinal not in range(128)")
        return mkstr(cs)
    def bad():
        raise UnicodeDecodeError(enc, b"?", 0, 1, "invalid data")
    if enc in ("utf-8", "utf8"):
        out, i, n = [], 0, len(cs)
        while i < n:
            b = cs[i]
            if c.branch(_inrange(b, 0, 0x7f)):
                out.append(b)
                i += 1
                continue
            if c.branch(_inrange(b, 0xc2, 0xdf)):
                k, v = 1, b - 0xc0
            elif c.branch(_inrange(b, 0xe0, 0xef)):
                k, v = 2, b - 0xe0
            elif c.branch(_inrange(b, 0xf0, 0xf4)):
                k, v = 3, b - 0xf0
            else:
                bad()
            if i + k >= n + 0 and i + k > n - 1:
                if i + k > n - 1:
                    bad()
            for j in range(1, k + 1):
                t = cs[i + j]
                if not c.branch(_inrange(t, 0x80, 0xbf)):
                    bad()
                v = v * 64 + (t - 0x80)
            lo = {1: 0x80, 2: 0x800, 3: 0x10000}[k]
            if not c.branch(_inrange(v, lo, 0x10ffff)):
                bad()
            if c.branch(_inrange(v, 0xd800, 0xdfff)):
                bad()
            out.append(v)
            i += k + 1
        return mkstr(out)
    if enc in ("utf-16be", "utf-16-be", "utf-16le", "utf-16-le", "utf-16"):
        le = not enc.endswith("be")
        if enc == "utf-16" and len(cs) >= 2:
            if c.branch(_and(_inrange(cs[0], 0xff, 0xff), _inrange(cs[1], 0xfe, 0xfe))):
                cs = cs[2:]
            elif c.branch(_and(_inrange(cs[0], 0xfe, 0xfe), _inrange(cs[1], 0xff, 0xff))):
                cs, le = cs[2:], False
        out, i, n = [], 0, len(cs)
        while i < n:
            if i + 1 >= n:
                bad()
            u = cs[i] + cs[i + 1] * 256 if le else cs[i] * 256 + cs[i + 1]
            i += 2
            if c.branch(_inrange(u, 0xdc00, 0xdfff)):
                bad()
            if c.branch(_inrange(u, 0xd800, 0xdbff)):
                if i + 1 >= n:
                    bad()
                w = cs[i] + cs[i + 1] * 256 if le else cs[i] * 256 + cs[i + 1]
                i += 2
                if not c.branch(_inrange(w, 0xdc00, 0xdfff)):
                    bad()
                out.append(0x10000 + (u - 0xd800) * 1024 + (w - 0xdc00))
            else:
                out.append(u)
        return mkstr(out)
    c.unsupported("decode " + enc)


class Opaque(Sym):
    """Text whose content is not modelled (messages)."""
    __slots__ = ("info",)

    def __init__(self, info=None):
        self.info = info

    @property
    def __class__(self):
        return str

    def __add__(self, o):
        return self
    __radd__ = __mod__ = __rmod__ = __mul__ = __rmul__ = __add__

    def __repr__(self):
        return "<opaque text>"

    __str__ = __repr__

    def __format__(self, spec):
        return "<opaque text>"

    def format(self, *a, **k):
        return self

    def _no(self, *a, **k):
        core.CTX.unsupported("opaque text inspected")
    __lt__ = __le__ = __gt__ = __ge__ = __len__ = __getitem__ = __contains__ = __iter__ = __bool__ = _no

    def __eq__(self, o):
        # JSON text of two structures: equal exactly when the structures are written the same way
        if self.info and self.info[0] == "json":
            if type(o) is Opaque and o.info and o.info[0] == "json":
                return mkbool(_jsoneq(self.info[1], o.info[1]))
            if type(o) is str:
                import json
                try:
                    j = json.loads(o)
                except ValueError:
                    return False
                return mkbool(_jsoneq(self.info[1], j))
            if o is None:
                return False
        self._no()

    def __ne__(self, o):
        return mkbool(_not(b2z(self == o)))
    __hash__ = Sym.__hash__
    replace = split = strip = startswith = endswith = lower = upper = encode = find = join = _no


def _jsoneq(a, b):
    if isinstance(a, dict) or isinstance(b, dict):
        if not (isinstance(a, dict) and isinstance(b, dict)) or len(a) != len(b):
            return False
        ks = [(_jsoneq(x, y)) for x, y in zip(dict.keys(a), dict.keys(b))]
        return _and(*(ks + [_jsoneq(x, y) for x, y in zip(dict.values(a), dict.values(b))]))
    if isinstance(a, (list, tuple)) or isinstance(b, (list, tuple)):
        if not (isinstance(a, (list, tuple)) and isinstance(b, (list, tuple))) or len(a) != len(b):
            return False
        return _and(True, *[_jsoneq(x, y) for x, y in zip(a, b)])
    for t in (bool, int, float, str):
        if isinstance(a, t) or isinstance(b, t):
            if not (isinstance(a, t) and isinstance(b, t)):
                return False
            if t is float and not is_sym(a) and not is_sym(b):
                return repr(a) == repr(b)
            r = a == b
            return b2z(r)
    return a is None and b is None
