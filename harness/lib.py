"""Shared harness helpers (symbolic and concrete)."""
import copy
import json
import os
import sys

from sx.job import Job

os.environ.setdefault("HOME", "/root")


def make_engine(doc, options=None, version=None, n=1, shared=None):
    from titus.genpy import PFAEngine
    es = PFAEngine.fromJson(doc, options=options, version=version, multiplicity=n, sharedState=shared)
    return Eng(es[0]) if n == 1 else [Eng(e) for e in es]


class Eng(object):
    """A compiled engine whose state is restored before every path."""

    def __init__(self, e):
        self.e = e
        self.cells0 = dict((k, copy.deepcopy(v.value)) for k, v in e.cells.items())
        self.pools0 = dict((k, copy.deepcopy(v.value)) for k, v in e.pools.items())
        self.tally0 = copy.deepcopy(getattr(e, "tally", None))
        self.hastally = hasattr(e, "tally")

    def fresh(self):
        e = self.e
        for k, v in e.cells.items():
            v.value = copy.deepcopy(self.cells0[k])
        for k, v in e.pools.items():
            v.value = copy.deepcopy(self.pools0[k])
        if self.hastally:
            e.tally = copy.deepcopy(self.tally0)
        e.actionsStarted = 0
        e.actionsFinished = 0
        e.emitted = []
        e.emit = lambda x: e.emitted.append(x)
        return e


def fn_engine(params, ret, expr, **extra):
    """Engine evaluating `expr` over a record input with the given params (name -> avro type), or a bare input."""
    names = list(params)
    doc = {"input": {"type": "record", "name": "SxInput", "fields": [{"name": n, "type": params[n]} for n in names]},
           "output": ret, "action": expr}
    doc.update(extra)
    return make_engine(once(doc, set()))


def once(t, seen):
    """A document whose named types are declared at their first occurrence only."""
    if isinstance(t, list):
        return [once(x, seen) for x in t]
    if isinstance(t, dict):
        if t.get("type") in ("record", "enum", "fixed") and "name" in t:
            if t["name"] in seen:
                return t["name"]
            seen.add(t["name"])
        return dict((k, once(x, seen)) for k, x in t.items())
    return t


def outcome(f, *args, **kw):
    """('ok', value) | ('err', code) | ('user', code) | ('timeout', None); anything else propagates."""
    from titus.errors import PFARuntimeException, PFAUserException, PFATimeoutException
    try:
        return ("ok", f(*args, **kw))
    except PFARuntimeException as e:
        return ("err", e.code)
    except PFAUserException as e:
        return ("user", e.code)
    except PFATimeoutException as e:
        return ("timeout", None)


def act(env, value, check=False):
    return outcome(env.fresh().action, value, check)


INT_MIN, INT_MAX = -2147483648, 2147483647
LONG_MIN, LONG_MAX = -9223372036854775808, 9223372036854775807


def agree(c, got, want, label):
    """got/want are outcomes."""
    c.observe(label + ".kind", got[0])
    c.observe(label + ".value", got[1])
    c.check(got[0] == want[0], label + ": outcome kind")
    if got[0] == "ok":
        c.check(c.same(got[1], want[1]), label + ": value")
    else:
        c.check(got[1] == want[1], label + ": error code")


class Err(Exception):
    """Raised by reference oracles: the documented runtime error with this code."""

    def __init__(self, code):
        Exception.__init__(self, code)
        self.code = code


def oracle_outcome(f, *args):
    try:
        return ("ok", f(*args))
    except Err as e:
        return ("err", e.code)


def copy_tree(v):
    """Structural copy sharing leaves (which are immutable)."""
    if isinstance(v, dict):
        return dict((k, copy_tree(x)) for k, x in v.items())
    if isinstance(v, (list, tuple)):
        return [copy_tree(x) for x in v]
    return v


class B(object):
    """Size bounds for generated values."""

    def __init__(self, arr=3, keys="abc", slen=2, alphabet=None, lens=None, special=()):
        self.arr, self.keys, self.slen, self.alphabet, self.lens, self.special = arr, keys, slen, alphabet, lens, special


def gen(c, name, t, b):
    """An arbitrary value of Avro type t (JSON form) within bounds b, in the representation engines use internally."""
    if isinstance(t, list):
        k = c.choice(name + "|", list(range(len(t))))
        v = gen(c, name + "|" + str(k), t[k], b)
        if t[k] == "null":
            return None
        tag = t[k] if isinstance(t[k], str) else t[k].get("name", t[k]["type"])
        return {tag: v}
    if isinstance(t, dict):
        k = t["type"]
        if k == "array":
            n = c.choice(name + ".len", b.lens if b.lens else list(range(b.arr + 1)))
            return [gen(c, "%s.%d" % (name, i), t["items"], b) for i in range(n)]
        if k == "map":
            out = {}
            for key in b.keys:
                if c.choice(name + "?" + key, [False, True]):
                    out[key] = gen(c, name + "." + key, t["values"], b)
            return out
        if k == "record":
            return dict((f["name"], gen(c, name + "." + f["name"], f["type"], b)) for f in t["fields"])
        if k == "enum":
            return c.choice(name, t["symbols"])
        if k == "fixed":
            return c.bytes(name, t["size"], t["size"])
        t = k
    if t == "null":
        return None
    if t == "boolean":
        return c.bool(name)
    if t == "int":
        return c.int(name)
    if t == "long":
        return c.long(name)
    if t in ("float", "double"):
        return c.double(name, b.special) if b.special else c.real(name)
    if t == "string":
        return c.str(name, b.slen, b.alphabet)
    if t == "bytes":
        return c.bytes(name, b.slen)
    raise ValueError(t)


def conforms(c, t, v):
    """Is v a value of the Avro type t? (symbolic truth value)"""
    if isinstance(t, list):
        if v is None:
            return "null" in t
        if isinstance(v, dict) and len(v) == 1:
            (tag, x), = v.items()
            for u in t:
                if u != "null" and tag == (u if isinstance(u, str) else u.get("name", u["type"])):
                    return conforms(c, u, x)
        return False
    if isinstance(t, dict):
        k = t["type"]
        if k == "array":
            return isinstance(v, (list, tuple)) and c.and_(True, *[conforms(c, t["items"], x) for x in v])
        if k == "map":
            return isinstance(v, dict) and c.and_(True, *[conforms(c, t["values"], x) for x in v.values()])
        if k == "record":
            return isinstance(v, dict) and len(v) == len(t["fields"]) and c.and_(True, *[f["name"] in v and conforms(c, f["type"], v[f["name"]]) for f in t["fields"]])
        if k == "enum":
            return isinstance(v, str) and v in t["symbols"]
        if k == "fixed":
            return isinstance(v, bytes) and len(v) == t["size"]
        t = k
    if t == "null":
        return v is None
    if t == "boolean":
        return isinstance(v, bool)
    if t == "int" or t == "long":
        lo, hi = (INT_MIN, INT_MAX) if t == "int" else (LONG_MIN, LONG_MAX)
        return isinstance(v, int) and not isinstance(v, bool) and c.and_(v >= lo, v <= hi)
    if t in ("float", "double"):
        return isinstance(v, (int, float)) and not isinstance(v, bool)
    if t == "string":
        return isinstance(v, str)
    if t == "bytes":
        return isinstance(v, (bytes, str))
    return True


def F(name, params, ret, expr, oracle, b=None, gens=None, pre=None, extra=None, check_type=True, cmp=None, **kw):
    """Job: the PFA expression `expr` over a record input with fields `params` agrees with `oracle(c, **fields)`
    for all inputs, returns a value of the declared type, and leaves its inputs unmodified."""
    bb = b or B()

    def setup():
        return fn_engine(params, ret, expr, **(extra or {}))

    def fn(c, env):
        vals = {}
        for n, t in params.items():
            vals[n] = gens[n](c, n) if gens and n in gens else gen(c, n, t, bb)
        if pre:
            pre(c, **vals)
        before = copy_tree(vals)
        env.e.rand = Rnd(c)
        want = oracle_outcome(oracle, c, *[before[n] for n in params])
        if want == ("err", SKIP):
            return
        got = act(env, vals)
        (cmp or agree)(c, got, want, name)
        if got[0] == "ok" and check_type:
            c.check(conforms(c, ret, got[1]), name + ": result conforms to its type")
        c.check(c.same(vals, before), name + ": inputs unmodified")
    return Job(name, fn, setup, **kw)


SKIP = "skip"


def trunc_div(c, x, y):
    """Exact division truncating toward zero."""
    q = abs(x) // abs(y)
    return c.ite(c.and_(c.or_(x < 0, y < 0), c.not_(c.and_(x < 0, y < 0))), -q, q)


class Rnd(object):
    """The engine's random number generator with every outcome its interface permits."""

    def __init__(self, c, prefix="rnd"):
        self.c, self.k, self.prefix = c, 0, prefix
        self.log = []
        self.base = []      # underlying draws, before scaling
        self.total = 1      # number of equally likely outcomes asked for so far
        self.cont = False   # a continuous draw was made

    def _name(self):
        self.k += 1
        return "%s%d" % (self.prefix, self.k)

    def randint(self, a, b):
        if a > b:
            raise ValueError("empty range for randint")
        v = self.c.int(self._name(), None, None)
        self.c.assume(self.c.and_(v >= a, v <= b))
        self.log.append(v)
        self.base.append(v)
        self.total = self.total * (b - a + 1)
        return v

    def randrange(self, a, b=None):
        return self.randint(0, a - 1) if b is None else self.randint(a, b - 1)

    def getrandbits(self, k):
        return self.randint(0, (1 << k) - 1)

    def random(self):
        v = self.c.real(self._name(), 0, 1)
        self.c.assume(v < 1)
        self.log.append(v)
        self.base.append(v)
        self.cont = True
        return v

    def uniform(self, a, b):
        v = a + (b - a) * self.random()
        self.log[-1] = v
        return v

    def gauss(self, mu, sigma):
        v = self.c.real(self._name())
        self.log.append(v)
        self.base.append(v)
        self.cont = True
        return mu + sigma * v
    normalvariate = gauss

    def _pick(self, n):
        self.total = self.total * n
        return self.c.choice(self._name(), list(range(n)))

    def choice(self, seq):
        if len(seq) == 0:
            raise IndexError("Cannot choose from an empty sequence")
        return seq[self._pick(len(seq))]

    def choices(self, seq, k=1):
        return [self.choice(seq) for _ in range(k)]

    def sample(self, population, k):
        if k < 0 or k > len(population):
            raise ValueError("Sample larger than population or is negative")
        left, out = list(population), []
        while len(out) < k:
            out.append(left.pop(self._pick(len(left))))
        return out

    def shuffle(self, x):
        for i in range(len(x) - 1):
            j = i + self._pick(len(x) - i)
            x[i], x[j] = x[j], x[i]
