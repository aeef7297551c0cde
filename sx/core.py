"""Path exploration: depth-first symbolic execution by re-execution, one incremental solver."""
import os
import time
import z3


class Control(BaseException):
    """Engine control flow; never caught by code under test."""


class Abort(Control):
    """This path is infeasible / assumed away."""


class Unsupported(Control):
    """The encoding met something it cannot represent; the path is cut (and reported as such)."""


class Budget(Control):
    pass


class EngineError(Exception):
    pass


class Cex(object):
    def __init__(self, label, inputs, detail):
        self.label, self.inputs, self.detail = label, inputs, detail


CTX = None


def ctx():
    return CTX


class Entry(object):
    __slots__ = ("kind", "key", "val", "alts", "pushed", "altmodel")

    def __init__(self, kind, key, val, alts, pushed, altmodel=None):
        self.kind, self.key, self.val, self.alts, self.pushed, self.altmodel = kind, key, val, alts, pushed, altmodel


class Ctx(object):
    """Symbolic context; one per job. `symbolic` distinguishes from the concrete replay context."""
    symbolic = True

    def __init__(self, mode="real", query_timeout_ms=10000, max_paths=200000, time_limit=600.0, tier="quick",
                 max_decisions=4000, max_concretize=24, seed=1, exp_edges=True):
        self.exp_edges = exp_edges
        self.mode = mode
        self.tier = tier
        self.solver = z3.Solver()
        self.solver.set("timeout", query_timeout_ms)
        self.solver.set("random_seed", seed)
        self.query_timeout_ms = query_timeout_ms
        self.trace = []
        self.pos = 0
        self.model = None
        self.max_paths = max_paths
        self.deadline = time.time() + time_limit
        self.max_decisions = max_decisions
        self.max_concretize = max_concretize
        self.stats = dict(paths=0, completed=0, aborted=0, cut=0, decisions=0, queries=0, solver_s=0.0,
                          checks=0, discharged=0, trivially=0, unknown=0, concretized=0, truncated=0,
                          obligation_unknown=0, known_region_paths=0, exceptions=0)
        self.known_ids = frozenset()
        self.hints = {}
        self.keep = []
        self.max_samples = 4
        self.cut_reasons = {}
        self.labels = {}
        self.cexs = []
        self.samples = []
        self.observed = None
        self.stubs = {}
        self.symkeys = False
        self.dead = False
        self.functions = set()
        self._reset_path()

    # ------------------------------------------------------------------ per path
    def _reset_path(self):
        self.pos = 0
        self.inputs = []       # (name, kind, payload) in creation order
        self.ranges = {}       # declared bounds of integer inputs, bounds of small bit operations
        self.inputnames = {}
        self.fresh_n = 0
        self.symkeys = False
        self.dead = False
        self.obs = []
        self.noted = {}

    def fresh(self, hint):
        self.fresh_n += 1
        return "%s!%d" % (hint, self.fresh_n)

    # ------------------------------------------------------------------ solver
    def _check(self, extra=None, timeout=None):
        t0 = time.time()
        if t0 > self.deadline:
            raise Budget()
        self.stats["queries"] += 1
        if extra is not None:
            self.solver.push()
            self.solver.add(extra)
        try:
            r = self.solver.check()
            m = self.solver.model() if r == z3.sat else None
            if r == z3.unknown:
                # one-shot, non-incremental strategies
                s = z3.Solver()
                s.set("timeout", self.query_timeout_ms)
                s.add(*self.solver.assertions())
                goal = z3.Goal()
                goal.add(*self.solver.assertions())
                for tac in ("qfnra-nlsat", "smt"):
                    try:
                        sv = z3.Then("simplify", "propagate-values", "solve-eqs", tac).solver() if tac != "smt" else z3.SimpleSolver()
                        sv.set("timeout", self.query_timeout_ms)
                        sv.add(*self.solver.assertions())
                        r = sv.check()
                        if r != z3.unknown:
                            m = sv.model() if r == z3.sat else None
                            break
                    except z3.Z3Exception:
                        continue
        except z3.Z3Exception as e:
            r, m = z3.unknown, None
        finally:
            if extra is not None:
                self.solver.pop()
            self.stats["solver_s"] += time.time() - t0
        return r, m

    def _push(self, e):
        self.solver.push()
        self.solver.add(e)

    def _evalb(self, e):
        if self.model is None:
            return None
        try:
            v = self.model.eval(e, model_completion=True)
        except z3.Z3Exception:
            return None
        if z3.is_true(v):
            return True
        if z3.is_false(v):
            return False
        return None

    # ------------------------------------------------------------------ decisions
    def branch(self, e):
        """Decide the truth of z3 Bool e on this path; returns a Python bool."""
        if isinstance(e, bool):
            return e
        e = z3.simplify(e)
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        if self.dead:
            raise Abort()
        if self.pos < len(self.trace):
            ent = self.trace[self.pos]
            if ent.kind != "b" or ent.key.get_id() != e.get_id():
                raise EngineError("nondeterministic re-execution: %r vs %r" % (ent.key, e))
            self.pos += 1
            return ent.val
        if len(self.trace) >= self.max_decisions:
            self._cut("max_decisions")
        self.stats["decisions"] += 1
        known = self._evalb(e)
        mt = mf = None
        if known is True:
            st, sf = True, None
        elif known is False:
            st, sf = None, True
        else:
            st = sf = None
        if st is None:
            r, mt = self._check(e)
            st = r != z3.unsat
            if r == z3.unknown:
                self.stats["unknown"] += 1
        if sf is None:
            if st is False:
                sf = True
            else:
                r, mf = self._check(z3.Not(e))
                sf = r != z3.unsat
                if r == z3.unknown:
                    self.stats["unknown"] += 1
        if not st and not sf:
            raise Abort()
        # explore True first when possible
        if st:
            val, alts = True, ([False] if sf else [])
            m = self.model if known is True else mt
            am = self.model if known is False else mf
        else:
            am = None
            val, alts = False, []
            m = self.model if known is False else mf
        self._push(e if val else z3.Not(e))
        self.model = m
        self.trace.append(Entry("b", e, val, alts, True, am))
        self.pos += 1
        return val

    def choose(self, n, key="choose"):
        """Nondeterministic choice in range(n), all alternatives explored."""
        if self.dead:
            raise Abort()
        if n <= 0:
            raise Abort()
        if n == 1:
            return 0
        if self.pos < len(self.trace):
            ent = self.trace[self.pos]
            if ent.kind != "c" or ent.key != (key, n):
                raise EngineError("nondeterministic re-execution (choose): %r vs %r" % (ent.key, (key, n)))
            self.pos += 1
            return ent.val
        if len(self.trace) >= self.max_decisions:
            self._cut("max_decisions")
        self.trace.append(Entry("c", (key, n), 0, list(range(1, n)), False, self.model))
        self.pos += 1
        return 0

    def define(self, e):
        """Assert a constraint that only restricts the path (assumption or definition)."""
        if isinstance(e, bool):
            if not e:
                raise Abort()
            return
        e = z3.simplify(e)
        if z3.is_true(e):
            return
        if z3.is_false(e):
            raise Abort()
        if self.dead:
            raise Abort()
        if self.pos < len(self.trace):
            ent = self.trace[self.pos]
            if ent.kind != "a" or ent.key.get_id() != e.get_id():
                raise EngineError("nondeterministic re-execution (define): %r vs %r" % (ent.key, e))
            self.pos += 1
            return
        if self._evalb(e) is True:
            m = self.model
        else:
            r, m = self._check(e)
            if r == z3.unsat:
                raise Abort()
            if r == z3.unknown:
                self.stats["unknown"] += 1
        self._push(e)
        self.model = m
        self.trace.append(Entry("a", e, True, [], True))
        self.pos += 1

    def _cut(self, why):
        self.dead = True
        raise Unsupported(why)

    def unsupported(self, why):
        self._cut(why)

    def getmodel(self):
        if self.model is None:
            r, m = self._check()
            if r == z3.sat:
                self.model = m
            elif r == z3.unsat:
                raise Abort()
            else:
                self._cut("solver gave no model")
        return self.model

    # ------------------------------------------------------------------ exploration driver
    def explore(self, fn, prefix=()):
        """Run fn(self) over all paths."""
        global CTX
        CTX = self
        first = True
        try:
            while True:
                if not first:
                    if not self._backtrack():
                        return
                first = False
                if self.stats["paths"] >= self.max_paths or time.time() > self.deadline:
                    self.stats["truncated"] += 1
                    return
                self._reset_path()
                self.stats["paths"] += 1
                try:
                    fn(self)
                    self.stats["completed"] += 1
                    n = self.stats["completed"]
                    if len(self.samples) < self.max_samples and n & (n - 1) == 0:
                        self._sample()
                except Abort:
                    self.stats["aborted"] += 1
                except Unsupported as e:
                    self.stats["cut"] += 1
                    k = str(e)[:200]
                    self.cut_reasons[k] = self.cut_reasons.get(k, 0) + 1
                except Budget:
                    self.stats["truncated"] += 1
                    return
                except (EngineError, z3.Z3Exception):
                    raise
                except Exception as e:
                    self.stats["exceptions"] += 1
                    self._exception(e)
                self.dead = False
        finally:
            CTX = None

    def _sample(self):
        m = self._feasible()
        if m is not None:
            self.samples.append((self.assignment(m), self.evalobs(m)))

    def _exception(self, e):
        import traceback
        tb = traceback.extract_tb(e.__traceback__)
        if os.environ.get("SX_TB"):
            traceback.print_exception(e)
        where = ""
        for f in tb:
            if "/sx/" not in f.filename:
                where = "%s:%s" % (f.filename.split("/")[-1], f.name)
        label = "unexpected %s in %s" % (type(e).__name__, where)
        try:
            m = self._feasible()
        except Control:
            return
        if m is not None:
            self._cex(label, m, None)
            self.cexs[-1].detail = "".join(traceback.format_exception_only(type(e), e))[:300] if self.cexs else ""

    def _backtrack(self):
        while self.trace:
            ent = self.trace[-1]
            if ent.alts:
                if ent.kind == "b":
                    self.solver.pop()
                    val = ent.alts.pop(0)
                    e = ent.key if val else z3.Not(ent.key)
                    self._push(e)
                    ent.val = val
                    self.model = ent.altmodel
                    ent.altmodel = None
                else:
                    ent.val = ent.alts.pop(0)
                    self.model = ent.altmodel
                return True
            if ent.pushed:
                self.solver.pop()
            self.trace.pop()
        return False
