"""The context handed to harnesses. One interface, two implementations:
SymCtx (symbolic execution, z3) and sx.concrete.ConcCtx (replay of one assignment on the real interpreter)."""
import math
import random
import z3
from sx import core
from sx.values import (Sym, SymBool, SymInt, SymReal, SymBV, SymFP, SymStr, SymBytes, Opaque, is_sym, has_sym, mkbool, b2z,
                       _and, _or, _not, mkstr, mkbytes, fpval, F64)
import sx.values as V
from sx import rt


class SymCtx(core.Ctx):
    # ---------------------------------------------------------------- inputs
    def _reg(self, name, kind, payload):
        if name in self.inputnames:
            raise core.EngineError("duplicate input " + name)
        self.inputnames[name] = len(self.inputs)
        self.inputs.append((name, kind, payload))

    def int(self, name, lo=-2147483648, hi=2147483647):
        if self.mode == "fp":
            w = max(lo.bit_length(), hi.bit_length()) + 1
            v = z3.BitVec(name, w)
            self._reg(name, "bv", v)
            if lo != -(1 << (w - 1)) or hi != (1 << (w - 1)) - 1:
                self.define(z3.And(v >= lo, v <= hi))
            return SymBV(v)
        v = z3.Int(name)
        self._reg(name, "int", v)
        if lo is not None and hi is not None:
            self.ranges[name] = (lo, hi)
        cs = []
        if lo is not None:
            cs.append(v >= lo)
        if hi is not None:
            cs.append(v <= hi)
        if cs:
            self.define(z3.And(*cs))
        return SymInt(v)

    def long(self, name):
        return self.int(name, -(1 << 63), (1 << 63) - 1)

    def bool(self, name):
        v = z3.Bool(name)
        self._reg(name, "bool", v)
        return SymBool(v)

    def real(self, name, lo=None, hi=None):
        """A finite float."""
        if self.mode == "fp":
            V._fpinit()
            v = z3.FP(name, V.F64)
            self._reg(name, "fp", v)
            self.define(z3.Not(z3.Or(z3.fpIsNaN(v), z3.fpIsInf(v))))
            if lo is not None:
                self.define(z3.fpGEQ(v, z3.FPVal(float(lo), V.F64)))
            if hi is not None:
                self.define(z3.fpLEQ(v, z3.FPVal(float(hi), V.F64)))
            return SymFP(v)
        v = z3.Real(name)
        self._reg(name, "real", v)
        cs = []
        if lo is not None:
            cs.append(v >= V._rv(lo))
        if hi is not None:
            cs.append(v <= V._rv(hi))
        if cs:
            self.define(z3.And(*cs))
        return SymReal(v)

    def double(self, name, specials=("nan", "inf", "-inf")):
        """Any float (with NaN and infinities)."""
        if self.mode == "fp":
            V._fpinit()
            v = z3.FP(name, V.F64)
            self._reg(name, "fp", v)
            return SymFP(v)
        k = self.choose(1 + len(specials), "double:" + name)
        if k:
            self._reg(name, "const", specials[k - 1])
            return float(specials[k - 1])
        return self.real(name)

    def str(self, name, maxlen=3, alphabet=None, minlen=0, lens=None):
        """Any string of at most maxlen code points; alphabet = list of (lo, hi) ranges."""
        lens = list(range(minlen, maxlen + 1)) if lens is None else lens
        n = lens[self.choose(len(lens), "len:" + name)]
        cs = []
        rng = alphabet or [(0, 0xd7ff), (0xe000, 0x10ffff)]
        if isinstance(rng, str):
            rng = [(ord(ch), ord(ch)) for ch in sorted(set(rng))]
        for i in range(n):
            v = z3.Int("%s[%d]" % (name, i))
            self.define(z3.Or(*[z3.And(v >= a, v <= b) for a, b in rng]))
            cs.append(v)
        self._reg(name, "str", tuple(cs))
        return mkstr(cs)

    def bytes(self, name, maxlen=3, minlen=0):
        n = minlen + self.choose(maxlen - minlen + 1, "len:" + name)
        cs = []
        for i in range(n):
            v = z3.Int("%s[%d]" % (name, i))
            self.define(z3.And(v >= 0, v <= 255))
            cs.append(v)
        self._reg(name, "bytes", tuple(cs))
        return mkbytes(cs)

    def choice(self, name, options):
        """One of the given concrete options, all explored."""
        options = list(options)
        k = self.choose(len(options), "choice:" + name)
        self._reg(name, "choice", k)
        return options[k]

    # ---------------------------------------------------------------- obligations
    def assume(self, cond):
        z = b2z(cond) if not isinstance(cond, bool) or is_sym(cond) else cond
        self.define(z)

    def check(self, cond, label):
        z = b2z(cond)
        st = self.stats
        lab = self.labels.setdefault(label, [0, 0, 0])
        if not isinstance(z, bool):
            z = z3.simplify(z)
            if z3.is_true(z):
                z = True
            elif z3.is_false(z):
                z = False
        if self.dead:
            raise core.Abort()
        replay = self.pos < len(self.trace)
        if isinstance(z, bool):
            if replay:
                if not z:
                    raise core.Abort()
                return
            st["checks"] += 1
            lab[0] += 1
            if z:
                # feasibility of the path was established at every branch
                st["discharged"] += 1
                st["trivially"] += 1
                lab[1] += 1
                return
            m = self._feasible()
            if m is None:
                raise core.Abort()
            self._cex(label, m, None)
            raise core.Abort()
        if replay:
            ent = self.trace[self.pos]
            if ent.kind in ("k", "a") and ent.key.get_id() == z.get_id():
                self.pos += 1
                return
            raise core.EngineError("nondeterministic re-execution (check)")
        st["checks"] += 1
        lab[0] += 1
        nz = z3.Not(z)
        r, m = self._check(nz)
        if r == z3.sat:
            self._cex(label, m, nz)
            self.define(z)
            return
        if r == z3.unsat:
            st["discharged"] += 1
            lab[1] += 1
        else:
            st["unknown"] += 1
            st["obligation_unknown"] += 1
            k = "solver unknown on obligation: " + label
            self.cut_reasons[k] = self.cut_reasons.get(k, 0) + 1
        self.trace.append(core.Entry("k", z, True, [], False))
        self.pos += 1

    def known(self, fid, cond):
        """True when this input lies in the region of a listed known finding (which is then not judged)."""
        if fid not in self.known_ids:
            return False
        z = b2z(cond)
        r = z if isinstance(z, bool) else self.branch(z)
        if r:
            self.stats["known_region_paths"] += 1
        return r

    def fail(self, label):
        self.check(False, label)

    def _feasible(self):
        if self.model is not None:
            return self.model
        r, m = self._check()
        if r == z3.unsat:
            return None
        if r == z3.unknown:
            self._cut("solver unknown on path feasibility")
        self.model = m
        return m

    def observe(self, name, value):
        self.obs.append((name, value))

    def reach(self, label):
        """Reachability witness (vacuity guard)."""
        if self._feasible() is None:
            raise core.Abort()
        self.labels.setdefault("reach:" + label, [0, 0, 0])[0] += 1

    # ---------------------------------------------------------------- equality used by obligations
    def eq(self, a, b, tol=None):
        return rt_deep_eq(a, b)

    def same(self, a, b):
        """Value equality including NaN == NaN."""
        return rt_deep_eq(a, b, True)

    def and_(self, *xs):
        return mkbool(_and(*[b2z(x) for x in xs]))

    def or_(self, *xs):
        return mkbool(_or(*[b2z(x) for x in xs]))

    def not_(self, x):
        return mkbool(_not(b2z(x)))

    def implies(self, a, b):
        return mkbool(_or(_not(b2z(a)), b2z(b)))

    def ite(self, c, a, b):
        z = b2z(c)
        if isinstance(z, bool):
            return a if z else b
        ia, ib = V._ci(a), V._ci(b)
        if ia is not None and ib is not None:
            return SymInt(z3.If(z, ia, ib))
        ra, rb = V._cr(a), V._cr(b)
        if ra is not None and rb is not None and ra is not V.NONFIN and rb is not V.NONFIN:
            return SymReal(z3.If(z, ra, rb))
        return a if self.branch(z) else b

    def exact(self, x):
        """x as an exact number (floats become rationals on replay)."""
        return x

    def le(self, a, b, tol=0.0):
        return a <= b

    # ---------------------------------------------------------------- models -> concrete assignments
    def assignment(self, m):
        out = {}
        for name, kind, p in self.inputs:
            out[name] = self._val(kind, p, m)
        return out

    def _val(self, kind, p, m):
        if kind == "const" or kind == "choice":
            return p
        if kind == "int":
            return m.eval(p, model_completion=True).as_long()
        if kind == "bv":
            return m.eval(p, model_completion=True).as_signed_long()
        if kind == "bool":
            return z3.is_true(m.eval(p, model_completion=True))
        if kind == "fp":
            f = fpval(m.eval(p, model_completion=True))
            return f.hex() if not (math.isnan(f) or math.isinf(f)) else repr(f)
        if kind == "real":
            v = m.eval(p, model_completion=True)
            if z3.is_algebraic_value(v):
                v = v.approx(20)
            try:
                return float(V.Fraction(v.numerator_as_long(), v.denominator_as_long())).hex()
            except OverflowError:
                return "inf"
        if kind in ("str", "bytes"):
            return [ch if type(ch) is int else m.eval(ch, model_completion=True).as_long() for ch in p]
        raise core.EngineError(kind)

    def _cex(self, label, m, nz):
        self.labels.setdefault(label, [0, 0, 0])[2] += 1
        if sum(1 for x in self.cexs if x.label == label) >= 6:
            return
        cands = [self.assignment(m)]
        reals = [p for _, k, p in self.inputs if k == "real"]
        if reals:
            # alternative models, steering reals towards values that survive rounding
            ints = [z3.ToReal(z3.ToInt(p * 8)) == p * 8 for p in reals]
            small = [z3.And(p <= 1000, p >= -1000) for p in reals]
            for sub in (ints + small, small):
                self.solver.push()
                try:
                    self.solver.add(*sub)
                    if nz is not None:
                        self.solver.add(nz)
                    self.solver.set("timeout", 3000)
                    if self.solver.check() == z3.sat:
                        cands.insert(0, self.assignment(self.solver.model()))
                        break
                except z3.Z3Exception:
                    pass
                finally:
                    self.solver.set("timeout", self.query_timeout_ms)
                    self.solver.pop()
        self.cexs.append(core.Cex(label, cands, str(nz)[:300] if nz is not None else "false on this path"))

    def evalobs(self, m):
        # a path taken on the value of an uninterpreted function says nothing about what the real function returns there
        if any(t.kind == "b" and _has_uf(t.key) for t in self.trace):
            return [(n, "?") for n, v in self.obs]
        return [(n, conc(v, m)) for n, v in self.obs]


class _NoConc(Exception):
    pass


def conc(v, m):
    """Concrete JSON-able rendering of a symbolic value under a model; '?' where not representable."""
    t = type(v)
    if t is SymBool:
        return z3.is_true(m.eval(v.e, model_completion=True))
    if t is SymInt:
        x = m.eval(v.e, model_completion=True)
        return x.as_long() if z3.is_int_value(x) else "?"
    if t is SymBV:
        x = m.eval(v.e, model_completion=True)
        return x.as_signed_long() if z3.is_bv_value(x) else "?"
    if t is SymReal:
        if _has_uf(v.e):
            return "?"
        x = m.eval(v.e, model_completion=True)
        if z3.is_algebraic_value(x):
            x = x.approx(20)
        try:
            return float(V.Fraction(x.numerator_as_long(), x.denominator_as_long()))
        except (OverflowError, AttributeError, z3.Z3Exception):
            return "?"
    if t is SymFP:
        x = m.eval(v.e, model_completion=True)
        return fpval(x) if z3.is_fp_value(x) else "?"
    if t is SymStr:
        return "".join(chr(ch if type(ch) is int else m.eval(ch, model_completion=True).as_long()) for ch in v.cs)
    if t is SymBytes:
        return "bytes:" + "".join("%02x" % (ch if type(ch) is int else m.eval(ch, model_completion=True).as_long()) for ch in v.cs)
    if t is Opaque:
        return "?"
    if isinstance(v, dict):
        return {str(conc(k, m)): conc(x, m) for k, x in dict.items(v)}
    if isinstance(v, (list, tuple)):
        return [conc(x, m) for x in v]
    if isinstance(v, bytes):
        return "bytes:" + v.hex()
    if v is None or isinstance(v, (bool, int, float, str)):
        return v
    return "?"


def _has_uf(e):
    seen = set()
    st = [e]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.num_args() > 0:
            return True
        if z3.is_app(x) and x.num_args() == 0 and "!" in x.decl().name():
            return True
        st.extend(x.children())
    return False


def rt_deep_eq(a, b, nan=False):
    if a is b:
        return True if nan or not (isinstance(a, float) and not is_sym(a)) else a == b
    ta, tb = type(a), type(b)
    if isinstance(a, dict) and isinstance(b, dict):
        if len(a) != len(b):
            return False
        acc = []
        for k, v in dict.items(a):
            f, kk = rt.dfind(b, k)
            if not f:
                return False
            acc.append(b2z(rt_deep_eq(v, dict.__getitem__(b, kk), nan)))
        return mkbool(_and(*acc))
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if len(a) != len(b):
            return False
        return mkbool(_and(*[b2z(rt_deep_eq(x, y, nan)) for x, y in zip(a, b)]))
    ab, bb = isinstance(a, bool), isinstance(b, bool)
    if ab != bb:
        return False
    if nan and isinstance(a, float) and isinstance(b, float):
        if ta is SymFP or tb is SymFP:
            x, y = V._cf(a), V._cf(b)
            return mkbool(z3.Or(z3.fpEQ(x, y), z3.And(z3.fpIsNaN(x), z3.fpIsNaN(y))))
        if not is_sym(a) and not is_sym(b):
            return a == b or (a != a and b != b)
    r = a == b
    return r if r is not NotImplemented else False
