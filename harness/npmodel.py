"""The part of numpy that titus.lib uses, over symbolic numbers in exact arithmetic.  It stands in for the numpy module while a
path is executed symbolically; the replay of a counterexample and of the validation samples runs on numpy itself."""
import sys
from contextlib import contextmanager

import numpy as _np

LinAlgError = _np.linalg.LinAlgError


class Arr(object):
    """One- or two-dimensional array; mat: numpy.matrix (always two-dimensional)."""

    def __init__(self, data, ndim, ncols=0, mat=False):
        self.d, self.ndim, self.mat = data, ndim, mat
        if ndim == 2:
            self.nrows, self.ncols = len(data), (len(data[0]) if data else ncols)

    @property
    def shape(self):
        return (len(self.d),) if self.ndim == 1 else (self.nrows, self.ncols)

    @property
    def size(self):
        return len(self.d) if self.ndim == 1 else self.nrows * self.ncols

    @property
    def T(self):
        if self.ndim == 1:
            return self
        return Arr([[self.d[i][j] for i in range(self.nrows)] for j in range(self.ncols)], 2, self.nrows, self.mat)

    @property
    def I(self):
        if self.nrows == self.ncols:
            return inv(self)
        return pinv(self)

    def tolist(self):
        return list(self.d) if self.ndim == 1 else [list(r) for r in self.d]

    def dot(self, other):
        return dot(self, other)

    __array_ufunc__ = None

    def mean(self, axis=None):
        assert self.ndim == 1
        t = 0.0
        for x in self.d:
            t = t + x
        return t / len(self.d)

    def std(self, axis=None):
        import math
        m = self.mean()
        t = 0.0
        for x in self.d:
            t = t + (x - m) * (x - m)
        return math.sqrt(t / len(self.d))

    def ravel(self):
        return self

    def __len__(self):
        return len(self.d)

    def __iter__(self):
        if self.ndim == 1:
            return iter(self.d)
        return iter([Arr(list(r), 1) for r in self.d])

    def _map(self, f):
        if self.ndim == 1:
            return Arr([f(x) for x in self.d], 1)
        return Arr([[f(x) for x in r] for r in self.d], 2, self.ncols, self.mat)

    def _zip(self, other, f):
        other = _lift(other) if isinstance(other, _np.ndarray) and other.ndim else other
        if not isinstance(other, Arr):
            return self._map(lambda x: f(x, other))
        if self.shape != other.shape:
            if self.ndim == 2 and other.ndim == 1 and self.ncols == len(other.d):
                return Arr([[f(x, y) for x, y in zip(r, other.d)] for r in self.d], 2, self.ncols, self.mat)
            raise ValueError("operands could not be broadcast together")
        if self.ndim == 1:
            return Arr([f(x, y) for x, y in zip(self.d, other.d)], 1)
        return Arr([[f(x, y) for x, y in zip(r, s)] for r, s in zip(self.d, other.d)], 2, self.ncols, self.mat)

    def __add__(self, other):
        return self._zip(other, lambda x, y: x + y)
    __radd__ = __add__

    def __sub__(self, other):
        return self._zip(other, lambda x, y: x - y)

    def __rsub__(self, other):
        return self._zip(other, lambda x, y: y - x)

    def __neg__(self):
        return self._map(lambda x: -x)

    def __mul__(self, other):
        if self.mat and isinstance(other, Arr):
            return dot(self, other)
        return self._zip(other, lambda x, y: x * y)

    def __rmul__(self, other):
        if isinstance(other, _np.ndarray) and other.ndim:
            return _lift(other)._zip(self, lambda x, y: x * y)
        return self._map(lambda x: other * x)

    def __matmul__(self, other):
        return dot(self, other)

    def __truediv__(self, other):
        return self._zip(other, lambda x, y: x / y)

    def _ix(self, k, n):
        if isinstance(k, slice):
            return list(range(*k.indices(n)))
        if not -n <= k < n:
            raise IndexError("index out of bounds")
        return int(k) + (n if k < 0 else 0)

    def __getitem__(self, k):
        if isinstance(k, tuple):
            i, j = self._ix(k[0], self.nrows), self._ix(k[1], self.ncols)
            if isinstance(i, list) and isinstance(j, list):
                return Arr([[self.d[a][b] for b in j] for a in i], 2, len(j), self.mat)
            if isinstance(i, list):
                return Arr([[self.d[a][j]] for a in i], 2, 1, True) if self.mat else Arr([self.d[a][j] for a in i], 1)
            if isinstance(j, list):
                return Arr([[self.d[i][b] for b in j]], 2, len(j), True) if self.mat else Arr([self.d[i][b] for b in j], 1)
            return self.d[i][j]
        i = self._ix(k, len(self.d))
        if isinstance(i, list):
            return Arr([self.d[a] for a in i], self.ndim, getattr(self, "ncols", 0), self.mat)
        if self.ndim == 1:
            return self.d[i]
        return Arr([list(self.d[i])], 2, self.ncols, True) if self.mat else Arr(list(self.d[i]), 1)

    def __setitem__(self, k, v):
        if isinstance(k, tuple):
            self.d[self._ix(k[0], self.nrows)][self._ix(k[1], self.ncols)] = v
        else:
            self.d[self._ix(k, len(self.d))] = list(v) if self.ndim == 2 else v

    def __float__(self):
        if self.size != 1:
            raise TypeError("only size-1 arrays can be converted to Python scalars")
        x = self.d[0] if self.ndim == 1 else self.d[0][0]
        return x

    def item(self):
        return self.__float__()


def _num(x):
    return x + 0.0 if isinstance(x, int) else x


def array(x, dtype=None):
    if isinstance(x, Arr):
        return Arr([list(r) for r in x.d] if x.ndim == 2 else list(x.d), x.ndim, getattr(x, "ncols", 0))
    x = list(x)
    if x and all(isinstance(r, Arr) and r.ndim == 1 for r in x):
        x = [r.d for r in x]
    if x and all(isinstance(r, (list, tuple)) for r in x):
        if len(set(len(r) for r in x)) != 1:
            raise ValueError("setting an array element with a sequence. The requested array has an inhomogeneous shape after 1 dimensions.")
        return Arr([[_num(y) for y in r] for r in x], 2, len(x[0]))
    if any(isinstance(r, (list, tuple)) for r in x):
        raise ValueError("setting an array element with a sequence.")
    return Arr([_num(y) for y in x], 1)
asarray = array


def matrix(x, dtype=None):
    a = array(x)
    if a.ndim == 1:
        a = Arr([a.d], 2, len(a.d))
    a.mat = True
    return a


def vstack(xs):
    rows = []
    for a in xs:
        rows += [list(a.d)] if a.ndim == 1 else [list(r) for r in a.d]
    return array(rows)


def empty(shape, dtype=None):
    if isinstance(shape, tuple):
        return Arr([[0.0] * shape[1] for _ in range(shape[0])], 2, shape[1])
    return Arr([0.0] * shape, 1)
zeros = empty


def dot(a, b):
    a, b = _lift(a), _lift(b)
    a, b = (x if isinstance(x, Arr) else array(x) for x in (a, b))
    if a.shape[-1] != b.shape[0]:
        raise ValueError("shapes not aligned")

    def ip(xs, ys):
        t = 0.0
        for x, y in zip(xs, ys):
            t = t + x * y
        return t
    mat = a.mat or b.mat
    if a.ndim == 1 and b.ndim == 1:
        return ip(a.d, b.d)
    if a.ndim == 2 and b.ndim == 1:
        out = [ip(r, b.d) for r in a.d]
        return Arr([out], 2, len(out), True) if mat else Arr(out, 1)
    cols = b.T.d
    if a.ndim == 1:
        return Arr([ip(a.d, s) for s in cols], 1)
    return Arr([[ip(r, s) for s in cols] for r in a.d], 2, b.ncols, mat)
matmul = dot


def minor(d, i, j):
    return [[x for jj, x in enumerate(r) if jj != j] for ii, r in enumerate(d) if ii != i]


def determinant(d):
    if len(d) == 0:
        return 1.0
    if len(d) == 1:
        return d[0][0]
    t = 0.0
    for j in range(len(d)):
        t = t + (d[0][j] if j % 2 == 0 else -d[0][j]) * determinant(minor(d, 0, j))
    return t


def adjugate(d):
    n = len(d)
    return [[determinant(minor(d, j, i)) * (1.0 if (i + j) % 2 == 0 else -1.0) for j in range(n)] for i in range(n)]


def square(a):
    if a.ndim != 2 or a.nrows != a.ncols:
        raise LinAlgError("Last 2 dimensions of the array must be square")


def det(a):
    a = a if isinstance(a, Arr) else array(a)
    square(a)
    return determinant(a.d)


def inv(a):
    a = a if isinstance(a, Arr) else array(a)
    square(a)
    k = determinant(a.d)
    if k == 0:
        raise LinAlgError("Singular matrix")
    return Arr([[x / k for x in r] for r in adjugate(a.d)], 2, a.ncols, a.mat)


def pinv(a):
    """Moore-Penrose inverse: full rank, or rank one, or zero."""
    a = a if isinstance(a, Arr) else array(a)
    at = a.T
    plain = Arr(a.d, 2, a.ncols)
    for g, left in ((dot(plain, plain.T), False), (dot(plain.T, plain), True)):
        k = determinant(g.d)
        if k != 0:
            gi = Arr([[x / k for x in r] for r in adjugate(g.d)], 2, len(g.d))
            r = dot(gi, plain.T) if left else dot(plain.T, gi)
            r.mat = a.mat
            return r
    norm = 0.0
    for r in a.d:
        for x in r:
            norm = norm + x * x
    if norm == 0:
        return at._map(lambda x: 0.0)
    if min(a.shape) > 2:
        raise NotImplementedError("pseudo-inverse of rank two")
    return at._map(lambda x: x / norm)


def solve(a, b):
    a, b = _lift(a), _lift(b)
    a, b = (x if isinstance(x, Arr) else array(x) for x in (a, b))
    square(a)
    if len(a.d) != len(b.d):
        raise ValueError("solve: Input operand has a mismatch")
    return dot(inv(a), b)


def argsort(xs):
    xs = list(xs)
    out = []
    for i in range(len(xs)):
        k = len(out)
        while k > 0 and xs[i] < xs[out[k - 1]]:
            k -= 1
        out.insert(k, i)
    return Arr(out, 1)


def _symbolic(x):
    if isinstance(x, Arr):
        return True
    if isinstance(x, (list, tuple)):
        return any(_symbolic(y) for y in x)
    from sx import rt
    return rt._anysym((x,), {})


def _lift(x):
    return array(x.tolist()) if isinstance(x, _np.ndarray) else x


def _real(f):
    """f with the real numpy in place (numpy looks itself up while it runs)"""
    def g(*a, **k):
        old = sys.modules["numpy"]
        sys.modules["numpy"] = _np
        try:
            return f(*a, **k)
        finally:
            sys.modules["numpy"] = old
    return g


class Fake(object):
    """stands in for the numpy module; delegate: concrete data stays with numpy, anything symbolic goes to the model"""

    def __init__(self, eig=None, delegate=False):
        self.delegate = delegate
        self.double = self.float64 = float
        self.int = int
        for k in ("array", "asarray", "matrix", "vstack", "dot", "matmul", "argsort"):
            setattr(self, k, self._either(globals()[k], getattr(_np, k)))
        self.empty = empty
        for k in ("zeros", "eye", "arange", "finfo", "ones"):
            setattr(self, k, _real(getattr(_np, k)))
        if not delegate:
            self.zeros = zeros
        self.ndarray = Arr

        class L(object):
            pass
        self.linalg = L()
        for k in ("det", "inv", "pinv", "solve"):
            setattr(self.linalg, k, self._either(globals()[k], getattr(_np.linalg, k)))
        self.linalg.cholesky, self.linalg.qr = _real(_np.linalg.cholesky), _real(_np.linalg.qr)
        self.linalg.LinAlgError = LinAlgError
        if eig:
            self.linalg.eig = self.linalg.eigh = eig

    def _either(self, model, real):
        def f(*a, **k):
            if self.delegate and not any(_symbolic(x) for x in a):
                return _real(real)(*a, **k)
            if self.delegate and model is array:
                from sx import rt
                x = [rt.fixed(y) for y in a[0]]
                return _real(real)(x, **k) if not _symbolic(x) else array(x)
            return model(*[_lift(x) for x in a], **k)
        return f

    def sqrt(self, x):
        import math
        return x._map(math.sqrt) if isinstance(x, Arr) else math.sqrt(x)


@contextmanager
def numpy_model(c, eig=None, delegate=False):
    """Replace numpy by the model on symbolic runs only."""
    if type(c).__name__ != "SymCtx":
        yield
        return
    old = sys.modules["numpy"]
    sys.modules["numpy"] = Fake(eig, delegate)
    try:
        yield
    finally:
        sys.modules["numpy"] = old
