"""Real numpy over arrays of objects, so that numpy's own algorithms run on symbolic numbers (symbolic runs only)."""
import math
from contextlib import contextmanager

import numpy as _np

_INF = float("inf")

# the interpreter of the test suite has numpy 1.19: make the newer one of the checker look like it
if not hasattr(_np, "in1d"):
    _np.in1d = _np.isin


def _el(f):
    def g(x, *a, **k):
        if isinstance(x, _np.ndarray):
            if x.dtype != object:
                return getattr(_np, f.__name__.strip("_"))(x, *a, **k)
            out = _np.empty(x.shape, dtype=object)
            for i in _np.ndindex(x.shape):
                out[i] = f(x[i])
            return out
        return f(x)
    return g


@_el
def sqrt(x):
    return math.sqrt(x)


@_el
def exp(x):
    return math.exp(x)


@_el
def log(x):
    return math.log(x)


@_el
def isfinite_(x):
    return x == x and x != _INF and x != -_INF


@_el
def square(x):
    return x * x


def _bools(a):
    return a.astype(bool) if isinstance(a, _np.ndarray) and a.dtype == object else a


def _over(a, d):
    if d == 0:
        return float("nan") if a == 0 or a != a else _INF if a > 0 else -_INF
    return a / d


class Obj(_np.ndarray):
    """an array of symbolic numbers; divides by zero as numbers do in numpy"""

    def __truediv__(self, other):
        a, b = _np.broadcast_arrays(_np.asarray(self, dtype=object), _np.asarray(other, dtype=object))
        out = _np.empty(a.shape, dtype=object)
        for i in _np.ndindex(a.shape):
            out[i] = _over(a[i], b[i])
        return out.view(Obj)

    def mean(self, axis=None):
        n = self.size if axis is None else self.shape[axis]
        s = self.sum(axis=axis)
        return s / n if isinstance(s, _np.ndarray) else _over(s, n)


class Shim(object):
    def __getattr__(self, k):
        if k == "pow":
            raise AttributeError("module 'numpy' has no attribute 'pow'")
        return getattr(_np, k)

    sqrt, exp, square = staticmethod(sqrt), staticmethod(exp), staticmethod(square)

    def log(self, x):
        return log(x)

    def isfinite(self, x):
        return _bools(isfinite_(x))

    def dtype(self, t):
        return _np.dtype(object) if getattr(t, "__name__", "") == "float" else _np.dtype(t)

    def arange(self, *a, **k):
        k.pop("dtype", None)
        return _np.arange(*a, **k).astype(float)

    def zeros(self, n, dtype=None):
        return _np.zeros(n, dtype=float if dtype == object else dtype)

    def sum(self, x, axis=None, dtype=None):
        if dtype is not None:
            return float(sum(1 if b else 0 for b in x))
        return _np.sum(x, axis=axis)

    def var(self, x):
        m = _np.mean(x)
        return _np.sum(square(x - m)) / len(x)

    def array(self, x, dtype=None):
        from sx import rt
        if dtype is None and not rt._anysym((x,), {}):
            return _np.array(x)
        out = _np.empty(len(x), dtype=object if dtype is None else dtype)
        for i, v in enumerate(x):
            out[i] = v
        return out


def symbolic(c):
    return type(c).__name__ == "SymCtx"


@contextmanager
def shim(c, module):
    """module sees numpy over objects"""
    if not symbolic(c):
        old = _np.seterr(all="ignore")
        try:
            yield
        finally:
            _np.seterr(**old)
        return
    old = _np.seterr(all="ignore")
    module.numpy = Shim()
    try:
        yield
    finally:
        module.numpy = _np
        _np.seterr(**old)


def table(c, rows):
    """a two-dimensional array"""
    a = _np.empty((len(rows), len(rows[0])), dtype=object if symbolic(c) else float)
    for i, r in enumerate(rows):
        for j, v in enumerate(r):
            a[i, j] = v
    return a.view(Obj) if symbolic(c) else a


def vector(c, xs):
    a = _np.empty(len(xs), dtype=object if symbolic(c) else float)
    for i, v in enumerate(xs):
        a[i] = v
    return a.view(Obj) if symbolic(c) else a
