"""Concrete context: replays one assignment on uninstrumented titus (runs under the project's own interpreter)."""
import math


class Violation(Exception):
    def __init__(self, label):
        Exception.__init__(self, label)
        self.label = label


class Infeasible(Exception):
    pass


def approx(a, b, tol):
    if a == b:
        return True
    if math.isnan(a) or math.isnan(b) or math.isinf(a) or math.isinf(b):
        return False
    return abs(a - b) <= tol * max(1.0, abs(a), abs(b))


class ConcCtx(object):
    symbolic = False
    TOL = 1e-9

    def __init__(self, inputs, mode="real", tier="quick"):
        self.inputs = inputs
        self.mode = mode
        self.tier = tier
        self.obs = []
        self.stubs = {}
        self.reached = []

    def _get(self, name):
        if name not in self.inputs:
            raise Infeasible("no value for input " + name)
        return self.inputs[name]

    def exact(self, x):
        from fractions import Fraction
        return Fraction(x) if isinstance(x, float) else x

    def int(self, name, lo=-2147483648, hi=2147483647):
        return self._get(name)

    def long(self, name):
        return self._get(name)

    def bool(self, name):
        return self._get(name)

    def real(self, name, lo=None, hi=None):
        v = self._get(name)
        return float.fromhex(v) if isinstance(v, str) else float(v)

    def double(self, name, specials=None):
        v = self._get(name)
        if isinstance(v, str):
            if v in ("nan", "inf", "-inf"):
                return float(v)
            return float.fromhex(v)
        return float(v)

    def str(self, name, maxlen=3, alphabet=None, minlen=0, lens=None):
        return "".join(chr(x) for x in self._get(name))

    def bytes(self, name, maxlen=3, minlen=0):
        return bytes(self._get(name))

    def choice(self, name, options):
        return list(options)[self._get(name)]

    def assume(self, cond):
        if not cond:
            raise Infeasible("assumption")

    def check(self, cond, label):
        if not cond:
            raise Violation(label)

    def fail(self, label):
        raise Violation(label)

    known_ids = frozenset()

    def known(self, fid, cond):
        return fid in self.known_ids and bool(cond)

    def observe(self, name, value):
        self.obs.append((name, value))

    def reach(self, label):
        self.reached.append(label)

    def choose(self, n, key):
        raise Infeasible("choose in concrete mode")

    def eq(self, a, b, tol=None):
        return self._eq(a, b, tol if tol is not None else self.TOL, False)

    def same(self, a, b):
        return self._eq(a, b, 0.0 if self.mode == "fp" else self.TOL, True)

    def _eq(self, a, b, tol, nan):
        if isinstance(a, dict) and isinstance(b, dict):
            return len(a) == len(b) and all(k in b and self._eq(v, b[k], tol, nan) for k, v in a.items())
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
            return len(a) == len(b) and all(self._eq(x, y, tol, nan) for x, y in zip(a, b))
        if isinstance(a, bool) != isinstance(b, bool):
            return False
        if isinstance(a, float) or isinstance(b, float):
            if isinstance(a, (int, float)) and isinstance(b, (int, float)):
                if nan and a != a and b != b:
                    return True
                return a == b if self.mode == "fp" else approx(a, b, tol)
        return bool(a == b)

    def and_(self, *xs):
        return all(xs)

    def or_(self, *xs):
        return any(xs)

    def not_(self, x):
        return not x

    def implies(self, a, b):
        return (not a) or bool(b)

    def ite(self, c, a, b):
        return a if c else b

    def le(self, a, b, tol=1e-9):
        if self.mode == "fp":
            return a <= b
        return a <= b or approx(a, b, tol)


def conc(v):
    if isinstance(v, dict):
        return {str(k): conc(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [conc(x) for x in v]
    if isinstance(v, (bytes, bytearray)):
        return "bytes:" + bytes(v).hex()
    if isinstance(v, float):
        if math.isnan(v) or math.isinf(v):
            return repr(v)
        return v
    if v is None or isinstance(v, (bool, int, str)):
        return v
    return "?"
