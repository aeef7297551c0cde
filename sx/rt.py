"""Runtime hooks called by instrumented code, and models of the C builtins."""
import base64
import builtins
import collections
import copy
import functools
import itertools
import json
import math
import operator
import struct
import types
import z3
from sx import core, instrument
from sx.core import Control
from sx.values import (Sym, SymBool, SymInt, SymReal, SymBV, SymFP, SymStr, SymBytes, SymSeq, Opaque, is_sym, has_sym,
                       mkbool, b2z, _and, _or, _not, sx_not, mkstr, mkbytes, _concretize, _trunc, _roundeven, _cr, _ci,
                       _inrange, _ceq, uf, NONFIN, conc_text, is_space)
import sx.values as V

FunctionType, MethodType, BuiltinType, ModuleType = types.FunctionType, types.MethodType, types.BuiltinFunctionType, types.ModuleType
MODELS = {}
METHODS = {}
SYMSETS = (Sym,)


def model(*fs):
    def deco(g):
        for f in fs:
            MODELS[f] = g
        return g
    return deco


def _anysym(a, k):
    for x in a:
        t = type(x)
        if t in _ATOM:
            continue
        if issubclass(t, Sym) or has_sym(x, 3):
            return True
    for x in k.values():
        if has_sym(x, 3):
            return True
    return False


_ATOM = {int, float, str, bool, type(None), bytes, FunctionType, MethodType, type}


def fixed(x):
    """A number to which the path condition leaves only one value, as that value."""
    if type(x) is not SymReal:
        return x
    v = core.CTX.getmodel().eval(x.e, model_completion=True)
    if z3.is_rational_value(v) and core.CTX._check(x.e != v)[0] == z3.unsat:
        return float(v.as_fraction())
    return x


def callkw(f, a, k):
    """f(*a, **k) where k may have symbolic keys (only dict() can take them)."""
    if all(type(x) is str for x in k):
        return call(f, *a, **k)
    if f is dict:
        d = call(dict, *a)
        for x, v in dict.items(k):
            setitem(d, x, v)
        return d
    core.CTX.unsupported("symbolic keyword names")


def call(f, *a, **k):
    t = type(f)
    c = core.CTX
    if t is FunctionType or t is MethodType:
        if c is not None:
            g = f.__func__ if t is MethodType else f
            st = c.stubs
            if st and g in st:
                return st[g](*((f.__self__,) + a if t is MethodType else a), **k)
            m = g.__module__
            if m is not None and m[:5] == "titus":
                c.functions.add(m + "." + g.__qualname__)
            h = MODELS.get(g)
            if h is not None and (f is json.dumps or _anysym(a, k)):
                return h(*a, **k)
        return f(*a, **k)
    if t is BuiltinType:
        s = f.__self__
        if s is not None and type(s) is not ModuleType:
            if type(s) is type:
                h = MODELS.get(f)
                if h is not None:
                    return h(*a, **k)
            return bmethod(f, s, a, k)
        if c is not None and c.stubs and f in c.stubs:
            return c.stubs[f](*a, **k)
        h = MODELS.get(f)
        if h is not None:
            return h(*a, **k)
        if c is not None and f not in SAFE and _anysym(a, k):
            c.unsupported("native call %s" % getattr(f, "__qualname__", f))
        return f(*a, **k)
    if t is type:
        h = MODELS.get(f)
        if h is not None:
            return h(*a, **k)
        return f(*a, **k)
    if t is types.MethodWrapperType or t is _MD:
        if c is not None and _anysym(a, k) and f not in SAFE:
            if t is _MD and f.__objclass__ in (dict, str, bytes, set, list):
                return bmethod(None, a[0], a[1:], k, f.__name__)
        return f(*a, **k)
    if c is not None:
        m = t.__module__
        if m[:5] == "titus":
            c.functions.add(m + "." + t.__qualname__)
        elif t is functools.partial:
            return call(f.func, *(f.args + a), **dict(f.keywords, **k))
    return f(*a, **k)


_MD = type(str.join)


# ------------------------------------------------------------------ methods of builtin containers
def _pykey(x):
    return is_sym(x) or (type(x) is tuple and any(_pykey(y) for y in x))


def dfind(d, k):
    """(found, stored key) under symbolic key equality."""
    if not _pykey(k):
        has = False
        try:
            has = dict.__contains__(d, k) if isinstance(d, dict) else k in d
        except TypeError:
            raise
        if has:
            return True, k
        if core.CTX is None or not core.CTX.symkeys:
            return False, None
        for kk in list(d):
            if _pykey(kk) and truth(eq(kk, k)):
                return True, kk
        return False, None
    for kk in list(d):
        if kk is k:
            return True, kk
    for kk in list(d):
        if truth(eq(kk, k)):
            return True, kk
    return False, None


def truth(x):
    return True if x is True else False if x is False else bool(x)


def _symdict(d, k):
    c = core.CTX
    return _pykey(k) or (c is not None and c.symkeys)


import re as _re
_RePattern = _re.Pattern


class _Missing(object):
    pass


_MISSING = _Missing()


def bmethod(f, s, a, k, name=None):
    t = type(s)
    if name is None:
        name = f.__name__
    c = core.CTX
    if c is not None:
        if t is str or (isinstance(s, str) and not is_sym(s)):
            if name == "join" and len(a) == 1 and type(a[0]) is not list:
                a = (list(a[0]),)
            if _anysym(a, k):
                if name == "format":
                    return strformat(s, a, k)
                if name == "join":
                    parts = list(a[0])
                    if any(type(p) is Opaque for p in parts):
                        return Opaque()
                    return SymStr(map(ord, s)).join(parts)
                m = getattr(SymStr(map(ord, s)), name, None)
                if m is None:
                    c.unsupported("str." + name)
                return m(*a, **k)
        elif t is bytes:
            if _anysym(a, k):
                m = getattr(SymBytes(s), name, None)
                if m is None:
                    c.unsupported("bytes." + name)
                return m(*a, **k)
        elif isinstance(s, dict):
            if name in ("get", "pop", "setdefault", "__contains__", "__getitem__", "has_key"):
                if a and _symdict(s, a[0]):
                    found, kk = dfind(s, a[0])
                    if name == "__contains__":
                        return found
                    if name == "__getitem__":
                        return getitem(s, a[0])
                    if found:
                        if name == "pop":
                            return dict.pop(s, kk)
                        return dict.__getitem__(s, kk)
                    if name == "get":
                        return a[1] if len(a) > 1 else k.get("default")
                    if name == "pop":
                        if len(a) > 1:
                            return a[1]
                        raise KeyError(a[0])
                    v = a[1] if len(a) > 1 else None
                    dict.__setitem__(s, a[0], v)
                    return v
            elif name == "update":
                if c.symkeys or _anysym(a, {}):
                    for x in a:
                        for kk, vv in (x.items() if isinstance(x, dict) else x):
                            setitem(s, kk, vv)
                    for kk, vv in k.items():
                        setitem(s, kk, vv)
                    return None
        elif t is struct.Struct:
            if _anysym(a, k):
                return m_pack(s.format, *a) if name == "pack" else m_unpack(s.format, *a) if name == "unpack" else c.unsupported("Struct." + name)
        elif t is _RePattern:
            if _anysym(a, k):
                from sx import remodel
                if name not in remodel.TABLE:
                    c.unsupported("Pattern." + name)
                return remodel.TABLE[name](s, *a, **k)
        elif t is set or t is frozenset:
            if c.symkeys or _anysym(a, k):
                return setmethod(s, name, a)
        elif t is list:
            if name == "join":
                pass
    return f(*a, **k) if f is not None else getattr(s, name)(*a, **k)


def setmethod(s, name, a):
    if name == "add":
        found, _ = dfind(s, a[0])
        if not found:
            set.add(s, a[0])
        return None
    if name in ("discard", "remove"):
        found, kk = dfind(s, a[0])
        if found:
            set.discard(s, kk)
        elif name == "remove":
            raise KeyError(a[0])
        return None
    if name in ("union", "update", "intersection", "difference", "symmetric_difference", "difference_update", "intersection_update"):
        out = list(s)
        for o in a:
            o = list(o)
            if name in ("union", "update"):
                for x in o:
                    if not dfind(out, x)[0] if not isinstance(out, list) else not lfind(out, x):
                        out.append(x)
            elif name.startswith("intersection"):
                out = [x for x in out if lfind(o, x)]
            elif name.startswith("difference"):
                out = [x for x in out if not lfind(o, x)]
            else:
                out = [x for x in out if not lfind(o, x)] + [x for x in o if not lfind(out, x)]
        if name.endswith("update"):
            s.clear()
            for x in out:
                set.add(s, x)
            return None
        return mkset(out)
    if name in ("issubset", "issuperset", "isdisjoint"):
        o = list(a[0])
        if name == "issubset":
            return all(lfind(o, x) for x in s)
        if name == "issuperset":
            return all(lfind(list(s), x) for x in o)
        return not any(lfind(o, x) for x in s)
    if name in ("copy", "clear", "pop", "__len__", "__iter__"):
        return getattr(s, name)(*a)
    core.CTX.unsupported("set." + name)


def lfind(xs, x):
    for y in xs:
        if y is x or truth(eq(y, x)):
            return True
    return False


def getitem(o, k):
    c = core.CTX
    if c is None:
        return o[k]
    t = type(o)
    if t is dict or isinstance(o, dict) and not is_sym(o):
        if _symdict(o, k):
            found, kk = dfind(o, k)
            if found:
                return dict.__getitem__(o, kk)
            if hasattr(t, "__missing__"):
                r = t.__missing__(o, k)
                return r
            raise KeyError(k)
        return o[k]
    if is_sym(k):
        if t in (list, tuple, str, bytes) or issubclass(t, SymSeq):
            if not isinstance(k, int):
                raise TypeError("indices must be integers or slices")
            return o[idx(k, len(o))]
    elif type(k) is slice:
        if is_sym(k.start) or is_sym(k.stop) or is_sym(k.step):
            return o[symslice(k, len(o))]
    return o[k]


def setitem(o, k, v):
    c = core.CTX
    if c is None:
        o[k] = v
        return
    t = type(o)
    if isinstance(o, dict) and not is_sym(o):
        if _symdict(o, k):
            found, kk = dfind(o, k)
            if found:
                o[kk] = v
            else:
                dict.__setitem__(o, k, v)
            return
    elif t is list:
        if is_sym(k):
            o[idx(k, len(o))] = v
            return
        if type(k) is slice and (is_sym(k.start) or is_sym(k.stop)):
            o[symslice(k, len(o))] = v
            return
    o[k] = v


def delitem(o, k):
    c = core.CTX
    if c is not None:
        if isinstance(o, dict) and _symdict(o, k):
            found, kk = dfind(o, k)
            if not found:
                raise KeyError(k)
            dict.__delitem__(o, kk)
            return
        if is_sym(k):
            k = idx(k, len(o))
        elif type(k) is slice and (is_sym(k.start) or is_sym(k.stop)):
            k = symslice(k, len(o))
    del o[k]


def idx(k, n):
    """Fork a symbolic index over the valid positions; raises IndexError outside."""
    c = core.CTX
    if type(k) is SymBool:
        return int(bool(k))
    if not truth((k >= -n) & (k < n) if False else mkbool(z3.And(k.e >= -n, k.e < n))):
        raise IndexError("index out of range")
    for i in range(-n, n):
        j = i + n if i < 0 else i - n
        if i == n - 1:
            return i
        if c.branch(k.e == i):
            return i
    raise core.Abort()


def symslice(k, n):
    def clamp(x):
        if x is None or not is_sym(x):
            return x
        c = core.CTX
        if c.branch(x.e <= -n):
            return -n if n else 0
        if c.branch(x.e >= n):
            return n
        for i in range(-n + 1, n):
            if i == n - 1 or c.branch(x.e == i):
                return i
        raise core.Abort()
    step = k.step
    if is_sym(step):
        step = _concretize(step)
    if step is not None and step < 0:
        core.CTX.unsupported("symbolic slice with negative step")
    return slice(clamp(k.start), clamp(k.stop), step)


def eq(a, b):
    """== without forking where possible"""
    c = core.CTX
    ta, tb = type(a), type(b)
    if c is not None:
        if isinstance(a, dict) and isinstance(b, dict) and c.symkeys:
            if len(a) != len(b):
                return False
            acc = []
            for kk, vv in dict.items(a):
                found, k2 = dfind(b, kk)
                if not found:
                    return False
                z = b2z(eq(vv, dict.__getitem__(b, k2)))
                if z is False:
                    return False
                acc.append(z)
            return mkbool(_and(*acc))
        if (ta is list and tb is list) or (ta is tuple and tb is tuple):
            if len(a) != len(b):
                return False
            acc = []
            for x, y in zip(a, b):
                if x is y:
                    continue
                z = b2z(eq(x, y))
                if z is False:
                    return False
                acc.append(z)
            return mkbool(_and(*acc))
        if (ta is set or ta is frozenset) and (tb is set or tb is frozenset) and c.symkeys:
            return len(a) == len(b) and all(lfind(b, x) for x in a)
    return a == b


def ne(a, b):
    return sx_not(eq(a, b)) if type(a) in (dict, list, tuple, set) or isinstance(a, dict) else a != b


def in_(x, o):
    if core.CTX is not None:
        t = type(o)
        if isinstance(o, dict) and not is_sym(o) or t is set or t is frozenset:
            if _pykey(x) or core.CTX.symkeys:
                return dfind(o, x)[0]
        elif t is _DK:
            if _pykey(x) or core.CTX.symkeys:
                return lfind(o, x)
        elif t is str and is_sym(x):
            return x in SymStr(map(ord, o))
        elif t is bytes and is_sym(x):
            return x in SymBytes(o)
        elif t is list or t is tuple:
            if core.CTX.symkeys:
                return lfind(o, x)
        elif t is range and is_sym(x):
            if o.step == 1:
                return mkbool(z3.And(x.e >= o.start, x.e < o.stop))
    return x in o


_DK = type({}.keys())


def not_in(x, o):
    return not in_(x, o)


def is_(a, b):
    if a is b:
        return True
    if core.CTX is not None and (is_sym(a) or is_sym(b)):
        if b is True or b is False:
            return a == b if type(a) is SymBool else False
        if a is True or a is False:
            return a == b if type(b) is SymBool else False
        if isinstance(a, int) and isinstance(b, int):
            return a == b
    return False


def is_not(a, b):
    return sx_not(is_(a, b))


def not_(x):
    if type(x) is SymBool:
        return mkbool(z3.Not(x.e))
    return not x


def mod(a, b):
    if core.CTX is not None:
        if type(a) is str:
            if has_sym(b, 3):
                return strmod(a, b)
        elif type(a) is Opaque:
            return a
    return a % b


def strmod(a, b):
    args = b if type(b) is tuple else (b,)
    parts = []
    i = 0
    n = 0
    while i < len(a):
        if a[i] == "%" and i + 1 < len(a):
            ch = a[i + 1]
            if ch == "%":
                parts.append("%")
            elif ch in "sd" and n < len(args):
                v = args[n]
                n += 1
                p = m_str(v)
                if type(p) is Opaque:
                    return p
                parts.append(p)
            else:
                return Opaque()
            i += 2
        else:
            parts.append(a[i])
            i += 1
    return SymStr(()).join(parts)


def strformat(s, a, k):
    """Only '{}' / '{0}' fields with string arguments keep their content; anything else is opaque."""
    import string
    parts = []
    auto = 0
    try:
        for lit, field, spec, conv in string.Formatter().parse(s):
            parts.append(lit)
            if field is None:
                continue
            if conv:
                return Opaque()
            if field == "":
                v = a[auto]
                auto += 1
            elif field.isdigit():
                v = a[int(field)]
            elif field in k:
                v = k[field]
            else:
                return Opaque()
            if type(v) is Opaque:
                return Opaque()
            if not has_sym(v, 3) and not is_sym(spec):
                parts.append(format(v, spec or ""))
                continue
            r = fmtspec(v, spec) if spec else (v if isinstance(v, str) else m_str(v))
            if r is None or type(r) is Opaque:
                return Opaque()
            parts.append(r)
    except (IndexError, ValueError):
        return Opaque()
    return SymStr(()).join(parts)


def fstr(parts):
    if not any(type(p) is tuple and has_sym(p[0], 3) for p in parts):
        out = []
        for p in parts:
            if type(p) is tuple:
                v = p[0]
                if p[1] == 114:
                    v = repr(v)
                elif p[1] == 115:
                    v = str(v)
                elif p[1] == 97:
                    v = ascii(v)
                out.append(format(v, p[2]))
            else:
                out.append(p)
        return "".join(out)
    out = []
    for p in parts:
        if type(p) is tuple:
            if p[1] not in (-1, 115):
                return Opaque()
            v = m_str(p[0]) if not p[2] else fmtspec(p[0], p[2])
            if v is None:
                return Opaque()
            if type(v) is Opaque:
                return v
            out.append(v)
        else:
            out.append(p)
    return SymStr(()).join(out)


def mkdict(pairs):
    d = {}
    for k, v in pairs:
        setitem(d, k, v)
    return d


def mkdict2(parts):
    d = {}
    for k, v in parts:
        if k is None:
            for kk, vv in v.items():
                setitem(d, kk, vv)
        else:
            setitem(d, k[0], v)
    return d


def mkset(xs):
    xs = list(xs)
    if not (core.CTX is not None and (core.CTX.symkeys or any(_pykey(x) for x in xs))):
        return set(xs)
    out = []
    for x in xs:
        if not lfind(out, x):
            out.append(x)
    s = set()
    for x in out:
        set.add(s, x)
    return s


# ------------------------------------------------------------------ builtins
@model(set)
def m_set(*a):
    return mkset(*a) if a else set()


@model(frozenset)
def m_frozenset(*a):
    return frozenset(mkset(*a)) if a else frozenset()


@model(dict)
def m_dict(*a, **k):
    if core.CTX is None or not (core.CTX.symkeys or _anysym(a, k)):
        return dict(*a, **k)
    if a and isinstance(a[0], dict) and not k:
        return dict(a[0])
    d = {}
    for x in a:
        for kk, vv in (x.items() if isinstance(x, dict) else x):
            setitem(d, kk, vv)
    for kk, vv in k.items():
        setitem(d, kk, vv)
    return d


@model(type)
def m_type(*a):
    if len(a) == 1 and is_sym(a[0]):
        return a[0].__class__
    return type(*a)


@model(bool)
def m_bool(*a):
    if a and is_sym(a[0]):
        t = type(a[0])
        if issubclass(t, SymSeq):
            return len(a[0]) > 0
        return mkbool(b2z(a[0]))
    return bool(*a)


@model(float)
def m_float(*a):
    if a:
        x = a[0]
        t = type(x)
        if t is SymReal or t is SymFP:
            return x
        if t is SymInt:
            return SymReal(z3.ToReal(x.e))
        if t is SymBV:
            return x.tofp()
        if t is SymBool:
            return m_float(x._int())
        if t is SymStr:
            return parse_float(x)
        if type(getattr(t, "__float__", None)) is FunctionType:
            return m_float(x.__float__())
    return float(*a)


def parse_float(s):
    """float(str): optional sign, digits, optional fraction, optional exponent of at most 2 digits; inf/nan."""
    c = core.CTX
    cs = list(s.strip().cs) if is_sym(s.strip()) else None
    if cs is None:
        return float(s.strip())
    low = [ch if type(ch) is int else z3.If(z3.And(ch >= 65, ch <= 90), ch + 32, ch) for ch in cs]
    low = [ch + 32 if type(ch) is int and 65 <= ch <= 90 else ch for ch in low]
    neg = False
    if low and c.branch(_or(_ceq(low[0], 43), _ceq(low[0], 45))):
        neg = c.branch(_ceq(low[0], 45))
        low = low[1:]
    for word, val in (("inf", math.inf), ("infinity", math.inf), ("nan", math.nan)):
        if len(word) == len(low) and c.branch(V.seq_eq(low, tuple(map(ord, word)))):
            return -val if neg else val
    i, n = 0, len(low)
    mant, frac, nd = z3.IntVal(0), 0, 0
    lastus = False

    def isd(ch):
        return c.branch(_inrange(ch, 48, 57))
    if any(type(ch) is not int and c.branch(ch > 127) for ch in low):
        c.unsupported("float() of non-ASCII text")
    prevdigit = False
    while i < n:
        if isd(low[i]):
            mant = mant * 10 + (low[i] - 48)
            nd += 1
            prevdigit = True
            i += 1
        elif prevdigit and i + 1 < n and c.branch(_ceq(low[i], 95)) and isd(low[i + 1]):
            i += 1
            prevdigit = False
        else:
            break
    if i < n and c.branch(_ceq(low[i], 46)):
        i += 1
        prevdigit = False
        while i < n:
            if isd(low[i]):
                mant = mant * 10 + (low[i] - 48)
                nd += 1
                frac += 1
                prevdigit = True
                i += 1
            elif prevdigit and i + 1 < n and c.branch(_ceq(low[i], 95)) and isd(low[i + 1]):
                i += 1
                prevdigit = False
            else:
                break
    if nd == 0:
        raise ValueError("could not convert string to float")
    ex = 0
    if i < n and c.branch(_ceq(low[i], 101)):
        i += 1
        eneg = False
        if i < n and c.branch(_or(_ceq(low[i], 43), _ceq(low[i], 45))):
            eneg = c.branch(_ceq(low[i], 45))
            i += 1
        k = i
        ev = z3.IntVal(0)
        while i < n and isd(low[i]):
            ev = ev * 10 + (low[i] - 48)
            i += 1
        if i == k:
            raise ValueError("could not convert string to float")
        ex = _concretize(SymInt(ev))
        ex = -ex if eneg else ex
    if i != n:
        raise ValueError("could not convert string to float")
    v = z3.ToReal(mant)
    p = ex - frac
    v = v * z3.RealVal(10 ** p) if p >= 0 else v / z3.RealVal(10 ** -p)
    if c.mode == "fp":
        c.unsupported("float(str) in fp mode")
    return SymReal(-v if neg else v)


@model(int)
def m_int(*a, **k):
    if a:
        x = a[0]
        t = type(x)
        if issubclass(t, Sym):
            if t is SymInt or t is SymBV:
                return x
            if t is SymReal:
                return SymInt(_trunc(x.e))
            if t is SymFP:
                return x.toint("trunc")
            if t is SymBool:
                return x._int()
            if t is SymStr:
                b = a[1] if len(a) > 1 else k.get("base", 10)
                return parse_int(x, b if not is_sym(b) else _concretize(b))
            core.CTX.unsupported("int() of " + t.__name__)
        if len(a) > 1 and is_sym(a[1]):
            return int(x, _concretize(a[1]))
    return int(*a, **k)


def parse_int(s, base):
    c = core.CTX
    if base != 0 and (base < 2 or base > 36):
        raise ValueError("int() base must be >= 2 and <= 36, or 0")
    err = ValueError("invalid literal for int()")
    st = s.strip()
    cs = list(st.cs) if is_sym(st) else [ord(ch) for ch in st]
    for ch in cs:
        if type(ch) is not int and c.branch(ch > 127):
            c.unsupported("int() of non-ASCII text")
    neg = False
    if cs and c.branch(_or(_ceq(cs[0], 43), _ceq(cs[0], 45))):
        neg = c.branch(_ceq(cs[0], 45))
        cs = cs[1:]
    if base == 0:
        c.unsupported("int(x, 0)")
    pre = {16: "xX", 8: "oO", 2: "bB"}.get(base)
    if pre and len(cs) >= 2 and c.branch(_and(_ceq(cs[0], 48), _or(_ceq(cs[1], ord(pre[0])), _ceq(cs[1], ord(pre[1]))))):
        cs = cs[2:]
        if cs and c.branch(_ceq(cs[0], 95)):
            cs = cs[1:]
    if not cs:
        raise err
    val = z3.IntVal(0)
    prevus = True
    for i, ch in enumerate(cs):
        if c.branch(_inrange(ch, 48, min(57, 47 + base))):
            d = ch - 48
        elif base > 10 and c.branch(_inrange(ch, 97, 86 + base)):
            d = ch - 87
        elif base > 10 and c.branch(_inrange(ch, 65, 54 + base)):
            d = ch - 55
        elif c.branch(_ceq(ch, 95)):
            if prevus or i == len(cs) - 1:
                raise err
            prevus = True
            continue
        else:
            raise err
        prevus = False
        val = val * base + d
    return SymInt(z3.simplify(-val if neg else val))


@model(str)
def m_str(*a, **k):
    if not a:
        return ""
    x = a[0]
    t = type(x)
    if issubclass(t, Sym):
        if t is SymStr or t is Opaque:
            return x
        if t is SymInt:
            return int_to_str(x)
        if t is SymBool:
            return "True" if bool(x) else "False"
        if t is SymBytes and len(a) > 1:
            return x.decode(*a[1:])
        return Opaque()
    if t not in _ATOM and has_sym(x, 4):
        return Opaque()
    if isinstance(x, BaseException) and has_sym(x.args, 4):
        return x.args[0] if len(x.args) == 1 and isinstance(x.args[0], str) else Opaque()
    m = getattr(t, "__str__", None)
    if len(a) == 1 and not k and type(m) is types.FunctionType:
        return m(x)             # Python-level __str__: may yield symbolic text
    return str(*a, **k)


def digits(v, base=10, maxdigits=20, mindigits=1):
    """Code points of the base-`base` rendering of the non-negative z3 integer v (forks on the number of digits)."""
    c = core.CTX
    n = mindigits
    while not c.branch(v < base ** n):
        n += 1
        if n > maxdigits:
            c.unsupported("str() of an integer with more than %d digits" % maxdigits)
    digs = []
    for i in range(n):
        d = z3.Int(c.fresh("dig"))
        digs.append(d)
    tot = z3.IntVal(0)
    for d in digs:
        tot = tot * base + d
    c.define(z3.And(tot == v, *[z3.And(d >= 0, d <= base - 1) for d in digs]))
    return [d + 48 if base <= 10 else z3.If(d <= 9, d + 48, d + 87) for d in digs]


def int_to_str(x, maxdigits=20):
    c = core.CTX
    neg = c.branch(x.e < 0)
    v = -x.e if neg else x.e
    return mkstr(([45] if neg else []) + digits(v, 10, maxdigits))


_SPEC = _re.compile(r"(?:(.)?([<>=^]))?([-+ ])?(#)?(0)?(\d+)?(,)?(?:\.(\d+))?([a-zA-Z%])?$", _re.S)


def _half_even(q):
    """Round-half-even of a non-negative z3 real, as a z3 integer."""
    f = z3.ToInt(q)
    r = q - z3.ToReal(f)
    return z3.If(r < z3.Q(1, 2), f, z3.If(r > z3.Q(1, 2), f + 1, z3.If(f % 2 == 0, f, f + 1)))


def _named(v):
    c = core.CTX
    x = z3.Int(c.fresh("rnd"))
    c.define(x == v)
    return x


def fmtspec(x, spec):
    """format(x, spec) for symbolic ints, strings and (real-mode) floats; None when outside the model."""
    if is_sym(spec) or type(spec) is not str:
        return None
    m = _SPEC.match(spec)
    if m is None:
        return None
    fill, align, sign, alt, zero, width, comma, prec, typ = m.groups()
    if alt or comma or align == "^":
        return None
    width = int(width) if width else 0
    c = core.CTX
    neg = False
    if isinstance(x, str):
        if typ not in (None, "s") or sign:
            return None
        body = [ord(ch) for ch in x] if not is_sym(x) else list(x.cs)
        if prec is not None:
            body = body[:int(prec)]
        align = align or "<"
    elif type(x) is SymInt and typ in (None, "d", "x"):
        if prec is not None:
            raise ValueError("Precision not allowed in integer format specifier")
        neg = c.branch(x.e < 0)
        body = digits(-x.e if neg else x.e, 16 if typ == "x" else 10)
    elif (type(x) is SymReal or type(x) is SymInt) and typ in ("f", "e"):
        v = z3.ToReal(x.e) if type(x) is SymInt else x.e
        p = int(prec) if prec is not None else 6
        if p > 12:
            return None
        neg = c.branch(v < 0)
        v = -v if neg else v
        body = []
        if typ == "f":
            n = _named(_half_even(v * 10 ** p))
            ds = digits(n, 10, 30, p + 1)
            body = ds[:len(ds) - p] + ([46] + ds[len(ds) - p:] if p else [])
        else:
            if c.branch(v == 0):
                e, ds = 0, [48] * (p + 1)
            else:
                e = 0
                while c.branch(v >= z3.RealVal(10) ** 0 * z3.RealVal(10 ** (e + 1))):
                    e += 1
                    if e > 40:
                        c.unsupported("exponent out of the model")
                while e <= 0 and not c.branch(v >= z3.Q(1, 10 ** (-e))):
                    e -= 1
                    if e < -40:
                        c.unsupported("exponent out of the model")
                sc = p - e
                n = _named(_half_even(v * 10 ** sc if sc >= 0 else v / z3.RealVal(10 ** (-sc))))
                if c.branch(n >= 10 ** (p + 1)):
                    e += 1
                    ds = [49] + [48] * p
                else:
                    ds = digits(n, 10, 30, p + 1)
            body = ds[:1] + ([46] + ds[1:] if p else []) + [101, 45 if e < 0 else 43] + [ord(ch) for ch in "%02d" % abs(e)]
    else:
        return None
    if not isinstance(x, str):
        align = align or ("=" if zero else ">")
        if zero and not fill:
            fill = "0"
    pre = [45] if neg else ([43] if sign == "+" else [32] if sign == " " else [])
    pad = [ord(fill or " ")] * max(0, width - len(body) - len(pre))
    if align == "<":
        out = pre + body + pad
    elif align == "=":
        out = pre + pad + body
    else:
        out = pad + pre + body
    return mkstr(out)


@model(repr)
def m_repr(x):
    if type(x) is SymInt:
        return int_to_str(x)
    if has_sym(x, 4):
        return Opaque()
    return repr(x)


@model(format)
def m_format(x, *a):
    if has_sym(x, 3):
        if not a or not a[0]:
            return m_str(x)
        r = fmtspec(x, a[0])
        return Opaque() if r is None else r
    return format(x, *a)


@model(chr)
def m_chr(x):
    if is_sym(x):
        if not core.CTX.branch(z3.And(x.e >= 0, x.e <= 0x10ffff)):
            raise ValueError("chr() arg not in range(0x110000)")
        return mkstr((x.e,)) if type(x) is SymInt else core.CTX.unsupported("chr of bv")
    return chr(x)


@model(ord)
def m_ord(x):
    if is_sym(x):
        if len(x) != 1:
            raise TypeError("ord() expected a character")
        ch = x.cs[0]
        return ch if type(ch) is int else SymInt(ch)
    return ord(x)


def _bytes_of(x):
    out = []
    for y in x:
        if is_sym(y):
            if not core.CTX.branch(z3.And(y.e >= 0, y.e <= 255)):
                raise ValueError("bytes must be in range(0, 256)")
            out.append(y.e)
        else:
            if not 0 <= y <= 255:
                raise ValueError("bytes must be in range(0, 256)")
            out.append(y)
    return mkbytes(out)


@model(bytes, bytearray)
def m_bytes(*a, **k):
    if a:
        x = a[0]
        if hasattr(x, "__next__"):
            x = list(x)
            a = (x,) + a[1:]
        if type(x) is SymBytes:
            return x
        if type(x) is SymStr:
            if len(a) < 2 and not k:
                raise TypeError("string argument without an encoding")
            return x.encode(*a[1:], **k)
        if type(x) in (list, tuple) and has_sym(x, 1):
            return _bytes_of(x)
        if is_sym(x):
            return bytes(_concretize(x))
    return bytes(*a, **k)


class SymRange(object):
    def __init__(self, a, b, s):
        self.a, self.b, self.s = a, b, s

    def __iter__(self):
        i, s = self.a, self.s
        if not is_sym(s) and s == 0:
            raise ValueError("range() arg 3 must not be zero")
        pos = truth(s > 0)
        while truth(i < self.b if pos else i > self.b):
            yield i
            i = i + s

    def __len__(self):
        n = self.b - self.a
        return n if truth(n > 0) else 0

    def __contains__(self, x):
        return truth(x >= self.a) and truth(x < self.b)


@model(range)
def m_range(*a):
    if any(is_sym(x) for x in a):
        if len(a) == 1:
            return SymRange(0, a[0], 1)
        if len(a) == 2:
            return SymRange(a[0], a[1], 1)
        return SymRange(*a)
    return range(*a)


def _minmax(a, k, less):
    return None


@model(map)
def m_map(f, *xs):
    if core.CTX is None or type(f) is FunctionType:
        return map(f, *xs)
    return map(lambda *a: call(f, *a), *xs)


@model(filter)
def m_filter(f, xs):
    if core.CTX is None or f is None or type(f) is FunctionType:
        return filter(f, xs)
    return filter(lambda a: call(f, a), xs)


@model(min)
def m_min(*a, **k):
    xs = list(a[0]) if len(a) == 1 else list(a)
    if not k and len(xs) > 1 and (all(type(x) in (SymInt, int) for x in xs) or all(type(x) in (SymReal, float) and not (type(x) is float and x != x) for x in xs)) and any(is_sym(x) for x in xs):
        return _ite_fold(xs, False)
    if len(a) == 1:
        return min(xs, **k)
    return min(*a, **k)


@model(max)
def m_max(*a, **k):
    xs = list(a[0]) if len(a) == 1 else list(a)
    if not k and len(xs) > 1 and (all(type(x) in (SymInt, int) for x in xs) or all(type(x) in (SymReal, float) and not (type(x) is float and x != x) for x in xs)) and any(is_sym(x) for x in xs):
        return _ite_fold(xs, True)
    if len(a) == 1:
        return max(xs, **k)
    return max(*a, **k)


def _ite_fold(xs, mx):
    cur = xs[0]
    for x in xs[1:]:
        if not is_sym(cur) and not is_sym(x):
            cur = max(cur, x) if mx else min(cur, x)
            continue
        cnd = (x > cur) if mx else (x < cur)
        if isinstance(cnd, bool) and not is_sym(cnd):
            cur = x if cnd else cur
            continue
        if type(x) is float and math.isinf(x) or type(cur) is float and math.isinf(cur):
            cur = x if truth(cnd) else cur
            continue
        if type(x) in (SymInt, int):
            cur = SymInt(z3.If(cnd.e, _ci(x), _ci(cur)))
        else:
            cur = SymReal(z3.If(cnd.e, _cr(x), _cr(cur)))
    return cur


@model(round)
def m_round(x, *a):
    if is_sym(x):
        if a and a[0] is not None:
            core.CTX.unsupported("round(x, n)")
        return x.__round__()
    return round(x, *a)


@model(abs)
def m_abs(x):
    return abs(x)


@model(pow, operator.pow)
def m_pow(a, b, *m):
    if is_sym(a) or is_sym(b):
        if m:
            core.CTX.unsupported("3-arg pow")
        return a ** b
    return pow(a, b, *m) if m else power(a, b)


def power(a, b):
    """a ** b; the interpreter titus runs on squares floats by multiplication, which does not overflow."""
    if type(a) is float and b == 2 and type(b) in (int, float):
        return a * a
    return a ** b


@model(list)
def m_list(*a):
    if a and (type(a[0]) is str or type(a[0]) is bytes):
        return list(a[0])
    return list(*a)


@model(hash)
def m_hash(x):
    if has_sym(x):
        core.CTX.symkeys = True
        return 0x5eed
    return hash(x)


def _exec_code(code, globs):
    if isinstance(code, str):
        code = instrument.transform_source(code, "<titus-generated>")
    globs["_sx_"] = __import__("sx.rt", fromlist=["x"])
    return code


@model(exec)
def m_exec(code, globs=None, locs=None):
    if globs is None:
        raise core.EngineError("exec without globals")
    code = _exec_code(code, globs)
    if locs is None:
        exec(code, globs)
    else:
        exec(code, globs, locs)


@model(eval)
def m_eval(code, globs=None, locs=None):
    if globs is None:
        globs = {}
    if isinstance(code, str):
        code = instrument.transform_source(code.strip(), "<titus-generated>", "eval")
    globs["_sx_"] = __import__("sx.rt", fromlist=["x"])
    return eval(code, globs, *([] if locs is None else [locs]))


@model(compile)
def m_compile(src, filename, mode, *a, **k):
    if isinstance(src, str):
        return instrument.transform_source(src, filename, mode)
    return compile(src, filename, mode, *a, **k)


@model(getattr)
def m_getattr(o, n, *d):
    if is_sym(n):
        core.CTX.unsupported("getattr symbolic name")
    return getattr(o, n, *d)


@model(print)
def m_print(*a, **k):
    if _anysym(a, k):
        return None
    return print(*a, **k)


# ------------------------------------------------------------------ math
_OVER = {"exp": (709.78, -745.2), "expm1": (709.78, -745.2), "sinh": (710.47, -710.47), "cosh": (710.47, -710.47)}
_rv = V._rv


def _real1(name, fp=None, domain=None, post=None):
    f = getattr(math, name)

    def g(x):
        t = type(x)
        if not issubclass(t, Sym):
            return f(x)
        c = core.CTX
        if t in (SymFP, SymBV):
            if fp is not None:
                return fp(m_float(x))
            c.unsupported("math.%s in fp mode" % name)
        z = _cr(x)
        if z is None:
            raise TypeError("must be real number")
        z = z3.simplify(z)
        if domain is not None and not c.branch(domain(z)):
            raise ValueError("math domain error")
        if name in _OVER:
            hi, lo = _OVER[name]
            if c.exp_edges:
                # outside this range the IEEE result overflows (exception) or underflows
                if c.branch(z > _rv(hi)):
                    raise OverflowError("math range error")
                if lo is not None and c.branch(z < _rv(lo)):
                    if name == "exp":
                        return 0.0
                    if name == "expm1":
                        return -1.0
                    raise OverflowError("math range error")
            else:
                c.define(z <= _rv(hi) if lo is None else z3.And(z <= _rv(hi), z >= _rv(lo)))
        key = (name, z.get_id())
        if key in c.noted:
            return c.noted[key][0]
        e = uf(name, z)
        r = SymReal(e)
        c.noted[key] = (r, z)
        if post is not None:
            c.define(post(e, z))
        return r
    MODELS[f] = g
    return g


def _sqrt_real(x):
    c = core.CTX
    z = z3.simplify(_cr(x))
    if c.branch(z < 0):
        raise ValueError("math domain error")
    if z3.is_rational_value(z):
        pass
    key = ("sqrt", z.get_id())
    if key in c.noted:
        return c.noted[key][0]
    y = z3.Real(c.fresh("sqrt"))
    r = SymReal(y)
    c.noted[key] = (r, z)
    c.define(z3.And(y >= 0, y * y == z))
    return r


@model(math.sqrt)
def m_sqrt(x):
    t = type(x)
    if not issubclass(t, Sym):
        return math.sqrt(x)
    if t in (SymFP, SymBV):
        x = m_float(x)
        if core.CTX.branch(z3.fpLT(x.e, z3.FPVal(0.0, z3.Float64()))):
            raise ValueError("math domain error")
        return SymFP(z3.fpSqrt(z3.RNE(), x.e))
    return _sqrt_real(x)


m_exp = _real1("exp", post=lambda e, z: z3.And(e > 0, z3.Implies(z == 0, e == 1), z3.Implies(z > 0, e > 1), z3.Implies(z < 0, e < 1)))
m_log = _real1("log", domain=lambda z: z > 0, post=lambda e, z: z3.And((e > 0) == (z > 1), (e == 0) == (z == 1)))
_log1 = MODELS[math.log]


def m_log2args(x, *b):
    if b:
        if is_sym(x) or is_sym(b[0]):
            return m_log2args(x) / m_log2args(b[0])
        return math.log(x, *b)
    if not is_sym(x):
        return math.log(x)
    return _log1(x)


MODELS[math.log] = m_log2args
_real1("log10", domain=lambda z: z > 0)
_real1("log2", domain=lambda z: z > 0)
_real1("log1p", domain=lambda z: z > -1, post=lambda e, z: z3.And((e > 0) == (z > 0), (e == 0) == (z == 0)))
_real1("expm1", post=lambda e, z: z3.And(e > -1, (e > 0) == (z > 0), (e == 0) == (z == 0)))
for _n in ("sin", "cos"):
    _real1(_n, post=lambda e, z: z3.And(e >= -1, e <= 1))
_real1("tan")
_real1("asin", domain=lambda z: z3.And(z >= -1, z <= 1))
_real1("acos", domain=lambda z: z3.And(z >= -1, z <= 1))
_real1("atan")
_real1("sinh")
_real1("cosh", post=lambda e, z: e >= 1)
_real1("tanh", post=lambda e, z: z3.And(e > -1, e < 1, (e > 0) == (z > 0), (e == 0) == (z == 0)))
_real1("erf", post=lambda e, z: z3.And(e > -1, e < 1))
_real1("erfc")
_real1("lgamma")
_real1("gamma")


@model(math.fabs)
def m_fabs(x):
    if is_sym(x):
        return abs(m_float(x))
    return math.fabs(x)


def _intlike(name, attr):
    f = getattr(math, name)

    def g(x):
        if is_sym(x):
            if not isinstance(x, (int, float)):
                raise TypeError("must be real number")
            if type(x) is SymBool:
                x = x._int()
            return getattr(x, attr)()
        return f(x)
    MODELS[f] = g


_intlike("floor", "__floor__")
_intlike("ceil", "__ceil__")
_intlike("trunc", "__trunc__")


@model(math.isnan)
def m_isnan(x):
    if type(x) is SymFP:
        return mkbool(z3.fpIsNaN(x.e))
    if is_sym(x):
        if not isinstance(x, (int, float)):
            raise TypeError("must be real number")
        return False
    return math.isnan(x)


@model(math.isinf)
def m_isinf(x):
    if type(x) is SymFP:
        return mkbool(z3.fpIsInf(x.e))
    if is_sym(x):
        if not isinstance(x, (int, float)):
            raise TypeError("must be real number")
        return False
    return math.isinf(x)


@model(math.isfinite)
def m_isfinite(x):
    if type(x) is SymFP:
        return mkbool(z3.Not(z3.Or(z3.fpIsInf(x.e), z3.fpIsNaN(x.e))))
    if is_sym(x):
        return True
    return math.isfinite(x)


def abstract(f, name, low=None, high=None, calls=None):
    """A stand-in for the numerical routine f: a function of its arguments about which only its range is known (f itself
    when they are concrete). With `calls`, also for concrete arguments, and paths with more calls than that are abandoned."""
    def g(*a):
        c = core.CTX
        if calls is not None:
            n = c.noted[name] = c.noted.get(name, 0) + 1
            if n > calls:
                c.dead = True
                raise core.Abort()
        zs = [_cr(x) for x in a]
        if any(z is None or z is NONFIN for z in zs) or (calls is None and not any(is_sym(x) for x in a)):
            return f(*a)
        z = uf(name, *zs)
        if low is not None:
            c.define(z >= _rv(low))
        if high is not None:
            c.define(z <= _rv(high))
        return SymReal(z)
    return g


@model(math.pow)
def m_mpow(x, y):
    if is_sym(x) or is_sym(y):
        try:
            r = m_float(x) ** y
        except ZeroDivisionError:
            raise ValueError("math domain error")
        return m_float(r)
    return math.pow(x, y)


@model(math.atan2)
def m_atan2(y, x):
    if is_sym(x) or is_sym(y):
        a, b = _cr(y), _cr(x)
        if a is NONFIN or b is NONFIN or a is None or b is None:
            core.CTX.unsupported("atan2")
        return SymReal(uf("atan2", a, b))
    return math.atan2(y, x)


@model(math.hypot)
def m_hypot(*xs):
    if any(is_sym(x) for x in xs):
        return m_sqrt(sum((x * x for x in xs), 0.0))
    return math.hypot(*xs)


@model(math.copysign)
def m_copysign(x, y):
    if is_sym(x) or is_sym(y):
        x = m_float(x)
        if core.CTX.mode == "fp":
            x = V._cf(x)
            yn = z3.fpIsNegative(V._cf(m_float(y)))
            ax = z3.fpAbs(x)
            return SymFP(z3.If(yn, z3.fpNeg(ax), ax))
        neg = truth(y < 0) if is_sym(y) else math.copysign(1.0, y) < 0
        return -abs(x) if neg else abs(x)
    return math.copysign(x, y)


@model(math.fmod)
def m_fmod(x, y):
    if is_sym(x) or is_sym(y):
        if truth(y == 0):
            raise ValueError("math domain error")
        r = abs(m_float(x)) % abs(m_float(y))
        return -r if truth(x < 0) else r
    return math.fmod(x, y)


@model(math.modf)
def m_modf(x):
    if is_sym(x):
        i = m_float(m_int(x))
        return (x - i, i)
    return math.modf(x)


@model(math.fsum)
def m_fsum(xs):
    xs = list(xs)
    if has_sym(xs):
        return sum(xs, 0.0)
    return math.fsum(xs)


# ------------------------------------------------------------------ struct / base64 / json
_SZ = {"x": 1, "b": 1, "B": 1, "h": 2, "H": 2, "i": 4, "I": 4, "l": 4, "L": 4, "q": 8, "Q": 8, "?": 1, "f": 4, "d": 8}


def _parsefmt(fmt):
    order = "@"
    if fmt and fmt[0] in "<>!=@":
        order, fmt = fmt[0], fmt[1:]
    items, n = [], ""
    for ch in fmt:
        if ch.isdigit():
            n += ch
        elif ch == "x" and not n:
            items.append(ch)
        elif ch in _SZ:
            items += [ch] * (int(n) if n else 1)
            n = ""
        else:
            core.CTX.unsupported("struct format " + ch)
    return order in "<=@", order, items


@model(struct.pack)
def m_pack(fmt, *vals):
    if not _anysym(vals, {}):
        return struct.pack(fmt, *vals)
    c = core.CTX
    little, order, items = _parsefmt(fmt)
    out = []
    for it, v in zip(items, vals):
        n = _SZ[it]
        if not is_sym(v):
            out += list(struct.pack((order if order != "@" else "=") + it, v))
            continue
        if it in "fd":
            b = _pack_float(it, v)
        else:
            if not isinstance(v, int):
                raise struct.error("required argument is not an integer")
            if type(v) is SymBool:
                v = v._int()
            if type(v) is SymBV:
                v = SymInt(z3.BV2Int(v.e, is_signed=True))
            lo, hi = (0, 2 ** (8 * n) - 1) if it.isupper() else (-2 ** (8 * n - 1), 2 ** (8 * n - 1) - 1)
            if not c.branch(z3.And(v.e >= lo, v.e <= hi)):
                raise struct.error("format requires %d <= number <= %d" % (lo, hi))
            b = _pack_int(v, n)
        out += b if little else b[::-1]
    return mkbytes(out)


def _pack_int(v, n):
    """bytes (little endian) of an integer that fits, named: the digits of it in base 256, two's complement."""
    c = core.CTX
    key = ("packi", n, v.e.get_id())
    if key in c.noted:
        return list(c.noted[key][0])
    bs = [z3.Int(c.fresh("ib")) for _ in range(n)]
    c.define(z3.And(z3.If(v.e < 0, v.e + 256 ** n, v.e) == z3.Sum(*[b * (256 ** j) for j, b in enumerate(bs)]) if n > 1 else z3.If(v.e < 0, v.e + 256, v.e) == bs[0], *[z3.And(b >= 0, b <= 255) for b in bs]))
    c.noted[key] = (tuple(bs), v)
    return bs


def _pack_float(it, v):
    """bytes (little endian) of a float: an injective abstract encoding, invertible by struct.unpack."""
    c = core.CTX
    n = _SZ[it]
    v = m_float(v)
    key = ("packf", it, v.e.get_id())
    if key in c.noted:
        return list(c.noted[key][0])
    bs = []
    for j in range(n):
        b = z3.Int(c.fresh("fb"))
        bs.append(b)
    c.define(z3.And(*[z3.And(b >= 0, b <= 255) for b in bs]))
    c.noted[key] = (tuple(bs), v)
    c.noted.setdefault("packf", []).append((it, tuple(bs), v))
    return bs


@model(struct.unpack)
def m_unpack(fmt, data):
    if not is_sym(data):
        if is_sym(fmt):
            core.CTX.unsupported("struct.unpack format")
        return struct.unpack(fmt, data)
    c = core.CTX
    little, order, items = _parsefmt(fmt)
    tot = sum(_SZ[i] for i in items)
    if tot != len(data):
        raise struct.error("unpack requires a buffer of %d bytes" % tot)
    out, pos = [], 0
    for it in items:
        n = _SZ[it]
        bs = list(data.cs[pos:pos + n])
        pos += n
        if not little:
            bs = bs[::-1]
        if it in "fd":
            for kind, pbs, v in c.noted.get("packf", []):
                if kind == it and all(x is y or (not isinstance(x, int) and not isinstance(y, int) and x.eq(y)) for x, y in zip(pbs, bs)):
                    out.append(v)
                    break
            else:
                c.unsupported("struct.unpack float of arbitrary bytes")
            continue
        if it == "x":
            continue
        val = z3.IntVal(0)
        for j, b in enumerate(bs):
            val = val + b * (256 ** j)
        if it == "?":
            out.append(mkbool(val != 0))
            continue
        if not it.isupper():
            val = z3.If(val >= 2 ** (8 * n - 1), val - 2 ** (8 * n), val)
        out.append(SymInt(val))
    return tuple(out)


_B64 = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"


def _b64c(v):
    return z3.If(v < 26, v + 65, z3.If(v < 52, v + 71, z3.If(v < 62, v - 4, z3.If(v == 62, z3.IntVal(43), z3.IntVal(47)))))


def _split(v, m, hi):
    """v as (v div m, v mod m), named, for 0 <= v < m * hi."""
    v = z3.simplify(v)
    if z3.is_int_value(v):
        return z3.IntVal(v.as_long() // m), z3.IntVal(v.as_long() % m)
    c = core.CTX
    q, r = z3.Int(c.fresh("q")), z3.Int(c.fresh("r"))
    c.define(z3.And(v == q * m + r, r >= 0, r < m, q >= 0, q < hi))
    return q, r


@model(base64.b64encode, base64.standard_b64encode)
def m_b64encode(s, altchars=None):
    if type(s) is SymStr:
        raise TypeError("a bytes-like object is required, not 'str'")
    if not is_sym(s):
        return base64.b64encode(s, altchars)
    if altchars is not None:
        core.CTX.unsupported("b64 altchars")
    cs = [z3.IntVal(x) if type(x) is int else x for x in s.cs]
    out = []
    for i in range(0, len(cs), 3):
        g = cs[i:i + 3]
        p = 3 - len(g)
        g = g + [z3.IntVal(0)] * p
        a0, a1 = _split(g[0], 4, 64)
        b0, b1 = _split(g[1], 16, 16)
        c0, c1 = _split(g[2], 64, 4)
        q = [_b64c(a0), _b64c(a1 * 16 + b0), _b64c(b1 * 4 + c0), _b64c(c1)]
        if p:
            q = q[:4 - p] + [61] * p
        out += q
    return mkbytes(out)


@model(base64.b64decode, base64.standard_b64decode)
def m_b64decode(s, altchars=None, validate=False):
    import binascii
    if type(s) is SymStr:
        s = s.encode("ascii") if all(type(ch) is int or core.CTX.branch(ch <= 127) for ch in s.cs) else _raise(ValueError("string argument should contain only ASCII characters"))
    if not is_sym(s):
        return base64.b64decode(s, altchars, validate)
    c = core.CTX
    if altchars is not None or validate:
        c.unsupported("b64decode options")
    # binascii.a2b_base64, non-strict: characters outside the alphabet are skipped; a pad ends a complete quad
    out, quad, leftover, pads = [], 0, None, 0
    for ch in s.cs:
        if c.branch(_ceq(ch, 61)):
            pads += 1
            if quad >= 2 and quad + pads >= 4:
                return mkbytes(out)
            continue
        if c.branch(_inrange(ch, 65, 90)):
            v = ch - 65
        elif c.branch(_inrange(ch, 97, 122)):
            v = ch - 71
        elif c.branch(_inrange(ch, 48, 57)):
            v = ch + 4
        elif c.branch(_ceq(ch, 43)):
            v = 62
        elif c.branch(_ceq(ch, 47)):
            v = 63
        else:
            continue
        pads = 0
        if isinstance(v, int):
            v = z3.IntVal(v)
        if quad == 0:
            leftover, quad = v, 1
        elif quad == 1:
            h, low = _split(v, 16, 4)
            out.append(leftover * 4 + h)
            leftover, quad = low, 2
        elif quad == 2:
            h, low = _split(v, 4, 16)
            out.append(leftover * 16 + h)
            leftover, quad = low, 3
        else:
            out.append(leftover * 64 + v)
            leftover, quad = None, 0
    if quad != 0:
        raise binascii.Error("Incorrect padding")
    return mkbytes(out)


def _raise(e):
    raise e


def _jsonnorm(x, default=None, proxies=False):
    if isinstance(x, dict) or (proxies and type(x) is types.MappingProxyType):
        d = {}
        for k, v in dict.items(x if isinstance(x, dict) else dict(x)):
            dict.__setitem__(d, k, _jsonnorm(v, default, proxies))
        return d
    if type(x) in (list, tuple):
        return [_jsonnorm(y, default, proxies) for y in x]
    if default is not None and not (x is None or isinstance(x, (bool, int, float, str))):
        return _jsonnorm(Opaque() if is_sym(x) and default is str else default(x), None, proxies)
    if type(x) in (bytes, SymBytes) or isinstance(x, bytes):
        raise TypeError("Object of type bytes is not JSON serializable")
    if x is None or isinstance(x, (bool, int, float, str)):
        return x
    raise TypeError("Object of type %s is not JSON serializable" % type(x).__name__)


@model(json.dumps)
def m_dumps(x, **k):
    if has_sym(x, 16):
        return Opaque(("json", _jsonnorm(x, k.get("default"), k.get("cls") is not None)))
    return json.dumps(x, **k)


@model(json.loads)
def m_loads(x, **k):
    if type(x) is Opaque:
        if x.info and x.info[0] == "json":
            return copy.deepcopy(x.info[1])
        core.CTX.unsupported("json.loads of opaque text")
    if is_sym(x):
        core.CTX.unsupported("json.loads of symbolic text")
    return json.loads(x, **k)


SAFE = {len, list, iter, next, min, max, sorted, sum, zip, enumerate, all, any, map, filter, reversed, getattr, setattr,
        hasattr, delattr, id, callable, isinstance, issubclass, functools.reduce, tuple, slice, divmod, operator.add,
        operator.sub, operator.mul, operator.lt, operator.le, operator.gt, operator.ge, operator.eq, operator.ne,
        operator.neg, operator.truediv, operator.floordiv, operator.and_, operator.or_, operator.xor, operator.invert,
        operator.lshift, operator.rshift, copy.copy, copy.deepcopy, vars, dir, object.__new__, operator.itemgetter}


@model(operator.mod)
def m_opmod(a, b):
    return mod(a, b)


@model(operator.not_)
def m_opnot(a):
    return not_(a)


@model(operator.truth)
def m_optruth(a):
    return m_bool(a)


@model(functools.cmp_to_key)
def m_cmp_to_key(f):
    # the C implementation compares the result with 0 through rich comparison
    class K(object):
        __slots__ = ("obj",)

        def __init__(self, obj):
            self.obj = obj

        def __lt__(self, o):
            return f(self.obj, o.obj) < 0

        def __gt__(self, o):
            return f(self.obj, o.obj) > 0

        def __eq__(self, o):
            return f(self.obj, o.obj) == 0

        def __le__(self, o):
            return f(self.obj, o.obj) <= 0

        def __ge__(self, o):
            return f(self.obj, o.obj) >= 0
        __hash__ = None
    return K


def _itercomb(f):
    def g(a, r=None):
        a = list(a)
        if is_sym(r):
            if truth(r < 0):
                raise ValueError("r must be non-negative")
            if truth(r > len(a)):
                return iter([])
            r = _concretize(r)
        return f(a, r) if r is not None else f(a)
    return g


MODELS[itertools.combinations] = _itercomb(itertools.combinations)
MODELS[itertools.permutations] = _itercomb(itertools.permutations)


# ------------------------------------------------------------------ re
def _re_install():
    import re
    from sx import remodel
    for n, f in remodel.TABLE.items():
        MODELS[getattr(re, n)] = f
_re_install()


# ------------------------------------------------------------------ io.BytesIO
import io


class SymBytesIO(object):
    """io.BytesIO whose content may be symbolic."""

    def __init__(self, initial=b""):
        self.cs = list(initial.cs if type(initial) is SymBytes else initial)
        self.pos = 0

    def write(self, b):
        if isinstance(b, str):
            raise TypeError("a bytes-like object is required, not 'str'")
        b = list(b.cs if type(b) is SymBytes else b)
        self.cs[self.pos:self.pos + len(b)] = b
        self.pos += len(b)
        return len(b)

    def read(self, n=-1):
        if n is None or n < 0:
            n = len(self.cs) - self.pos
        n = V._concretize(n) if type(n) is SymInt else n
        r = self.cs[self.pos:self.pos + n]
        self.pos += len(r)
        return mkbytes(r)

    def getvalue(self):
        return mkbytes(self.cs)

    def tell(self):
        return self.pos

    def seek(self, n, whence=0):
        self.pos = n + (0 if whence == 0 else self.pos if whence == 1 else len(self.cs))
        return self.pos

    def flush(self):
        pass

    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


@model(io.BytesIO)
def m_bytesio(*a):
    return SymBytesIO(*a) if core.CTX is not None else io.BytesIO(*a)


# ------------------------------------------------------------------ codecs
import codecs


@model(codecs.encode)
def m_cencode(obj, encoding="utf-8", errors="strict"):
    if type(obj) is SymStr:
        return obj.encode(encoding, errors)
    if is_sym(obj):
        raise TypeError("a str object is required")
    return codecs.encode(obj, encoding, errors)


@model(codecs.decode)
def m_cdecode(obj, encoding="utf-8", errors="strict"):
    if type(obj) is SymBytes:
        return obj.decode(encoding, errors)
    if is_sym(obj):
        raise TypeError("a bytes-like object is required, not 'str'")
    return codecs.decode(obj, encoding, errors)
