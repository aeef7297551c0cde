"""C05/C06/C07/C09: a reference interpreter for the language's special forms, and the program families compared with it."""
from harness.lib import *

INT = (INT_MIN, INT_MAX)


class User(Exception):
    """A user-defined error of the reference interpreter."""

    def __init__(self, msg, code):
        Exception.__init__(self, msg)
        self.msg, self.code = msg, code


class Frame(object):
    def __init__(self, parent=None):
        self.vars, self.parent = {}, parent

    def find(self, n):
        f = self
        while f is not None:
            if n in f.vars:
                return f
            f = f.parent
        raise KeyError(n)

    def get(self, n):
        return self.find(n).vars[n]


class Ref(object):
    """Lexically scoped evaluation of PFA expressions, straight from the language definition."""

    def __init__(self, doc):
        self.doc, self.cells, self.pools = doc, {}, {}
        self.calls = 0
        self.logged, self.emitted = [], []

    def truth(self, b):
        return True if b else False

    def fit(self, v, code):
        if not (INT_MIN <= v <= INT_MAX):
            raise Err(code)
        return v

    def block(self, es, f, new=True):
        g = Frame(f) if new else f
        out = None
        for e in es if isinstance(es, list) else [es]:
            out = self.ev(e, g)
        return out

    def callf(self, fn, args):
        params, body, f = fn
        g = Frame(f)
        for n, a in zip(params, args):
            g.vars[n] = a
        return self.block(body, g)

    def fnval(self, e, f):
        if "fcn" in e:                                # reference, perhaps with some arguments filled in
            d = self.doc["fcns"][e["fcn"][2:]]
            ps = [list(p)[0] for p in d["params"]]
            if "fill" not in e:
                return (ps, d["do"], None)
            fill = dict((k, self.ev(x, f)) for k, x in e["fill"].items())
            rest = [p for p in ps if p not in fill]
            g = Frame()
            g.vars.update(fill)
            return (rest, d["do"], g)
        return ([list(p)[0] for p in e["params"]], e["do"], f)

    def ref(self, name, f):
        parts = name.split(".")
        v = f.get(parts[0])
        for p in parts[1:]:
            v = v[p]
        return v

    # paths
    def path(self, es, f):
        return [self.ev(e, f) for e in es]

    def read(self, v, path, acode, mcode):
        for p in path:
            if isinstance(v, (list, tuple)):
                if not (0 <= p < len(v)):
                    raise Err(acode)
                v = v[concretize(p, len(v))]
            else:
                if p not in v:
                    raise Err(mcode)
                v = v[p]
        return v

    def write(self, v, path, to, acode, mcode, f):
        if not path:
            if isinstance(to, dict) and ("params" in to or "fcn" in to):
                return self.callf(self.fnval(to, f), [v])
            return to
        p, rest = path[0], path[1:]
        if isinstance(v, (list, tuple)):
            if not (0 <= p < len(v)):
                raise Err(acode)
            i = concretize(p, len(v))
            return [self.write(x, rest, to, acode, mcode, f) if j == i else x for j, x in enumerate(v)]
        if p not in v:
            raise Err(mcode)
        return dict((k, self.write(x, rest, to, acode, mcode, f) if k == p else x) for k, x in v.items())

    def target(self, to, f):
        return to if isinstance(to, dict) and ("params" in to or "fcn" in to) else self.ev(to, f)

    def ev(self, e, f):
        if isinstance(e, str):
            return self.ref(e, f)
        if e is None or isinstance(e, (bool, int, float)):
            return e
        if isinstance(e, list):
            return e[0]
        k = next(x for x in KEYS if x in e) if any(x in e for x in KEYS) else list(e)[0]
        m = getattr(self, "do_" + NAMES.get(k, k).replace("-", "_"), None)
        if m is None:
            if k.startswith("u."):
                args = [self.ev(a, f) for a in aslist(e[k])]
                d = self.doc["fcns"][k[2:]]
                return self.callf(([list(p)[0] for p in d["params"]], d["do"], None), args)
            raise NotImplementedError(k)
        return m(e, f)

    # literals
    def do_int(self, e, f):
        return e["int"]
    do_long = lambda self, e, f: e["long"]
    do_double = lambda self, e, f: e["double"]
    do_string = lambda self, e, f: e["string"]

    def do_base64(self, e, f):
        import base64
        return base64.b64decode(e["base64"])

    def do_value(self, e, f):
        return e["value"]

    def do_new(self, e, f):
        n = e["new"]
        return [self.ev(x, f) for x in n] if isinstance(n, list) else dict((k, self.ev(x, f)) for k, x in n.items())

    # operators
    def two(self, e, k, f):
        return self.ev(e[k][0], f), self.ev(e[k][1], f)

    def do_plus(self, e, f):
        x, y = self.two(e, "+", f)
        return self.fit(x + y, 18000)

    def do_minus(self, e, f):
        x, y = self.two(e, "-", f)
        return self.fit(x - y, 18010)

    def do_times(self, e, f):
        x, y = self.two(e, "*", f)
        return self.fit(x * y, 18020)

    def do_lt(self, e, f):
        x, y = self.two(e, "<", f)
        return x < y

    def do_le(self, e, f):
        x, y = self.two(e, "<=", f)
        return x <= y

    def do_gt(self, e, f):
        x, y = self.two(e, ">", f)
        return x > y

    def do_eq(self, e, f):
        x, y = self.two(e, "==", f)
        return x == y

    def do_and(self, e, f):
        return self.truth(self.ev(e["&&"][0], f)) and self.truth(self.ev(e["&&"][1], f))

    def do_or(self, e, f):
        return self.truth(self.ev(e["||"][0], f)) or self.truth(self.ev(e["||"][1], f))

    def do_not(self, e, f):
        return not self.truth(self.ev(e["!"][0] if isinstance(e["!"], list) else e["!"], f))

    def do_a_map(self, e, f):
        a = self.ev(e["a.map"][0], f)
        fn = self.fnval(e["a.map"][1], f)
        return [self.callf(fn, [x]) for x in a]

    def do_a_append(self, e, f):
        a, x = self.two(e, "a.append", f)
        return list(a) + [x]

    def do_a_len(self, e, f):
        return len(self.ev(aslist(e["a.len"])[0], f))

    def do_emit(self, e, f):
        self.emitted.append(copy_tree(self.ev(aslist(e["emit"])[0], f)))
        return None

    # blocks and variables
    def do_do(self, e, f):
        return self.block(e["do"], f)

    def do_let(self, e, f):
        new = dict((n, self.ev(x, f)) for n, x in e["let"].items())
        f.vars.update(new)
        return None

    def do_set(self, e, f):
        new = dict((n, self.ev(x, f)) for n, x in e["set"].items())
        for n, v in new.items():
            f.find(n).vars[n] = v
        return None

    def do_if(self, e, f):
        if self.truth(self.ev(e["if"], Frame(f))):
            out = self.block(e["then"], f)
            return out if "else" in e else None
        return self.block(e["else"], f) if "else" in e else None

    def do_cond(self, e, f):
        for w in e["cond"]:
            if self.truth(self.ev(w["if"], Frame(f))):
                out = self.block(w["then"], f)
                return out if "else" in e else None
        return self.block(e["else"], f) if "else" in e else None

    def do_while(self, e, f):
        while self.truth(self.ev(e["while"], Frame(f))):
            self.block(e["do"], f)
        return None

    def do_until(self, e, f):
        while True:
            g = Frame(f)
            self.block(e["do"], g, new=False)
            if self.truth(self.ev(e["until"], Frame(g))):
                return None

    def do_for(self, e, f):
        g = Frame(f)
        self.do_let({"let": e["for"]}, g)
        while self.truth(self.ev(e["while"], Frame(g))):
            self.block(e["do"], g)
            self.do_set({"set": e["step"]}, g)
        return None

    def do_foreach(self, e, f):
        for x in self.ev(e["in"], f):
            g = Frame(f)
            g.vars[e["foreach"]] = x
            self.block(e["do"], g)
        return None

    def do_forkey(self, e, f):
        for k, x in self.ev(e["in"], f).items():
            g = Frame(f)
            g.vars[e["forkey"]], g.vars[e["forval"]] = k, x
            self.block(e["do"], g)
        return None

    def do_ifnotnull(self, e, f):
        vs = dict((n, self.ev(x, f)) for n, x in e["ifnotnull"].items())
        if all(v is not None for v in vs.values()):
            g = Frame(f)
            for n, v in vs.items():
                if isinstance(v, dict) and len(v) == 1 and list(v)[0] in TAGS:
                    v, = v.values()
                g.vars[n] = v
            out = self.block(e["then"], g)
            return out if "else" in e else None
        return self.block(e["else"], f) if "else" in e else None

    def do_cast(self, e, f):
        v = self.ev(e["cast"], f)
        tag = "null" if v is None else list(v)[0]
        x = None if v is None else v[tag]
        for case in e["cases"]:
            t = case["as"]
            t = t if isinstance(t, str) else t.get("name", t["type"])
            if t == tag or t in {"int": ("long", "float", "double"), "long": ("float", "double"), "float": ("double",)}.get(tag, ()):
                g = Frame(f)
                g.vars[case["named"]] = x
                out = self.block(case["do"], g)
                return None if e.get("partial") else out
        return None

    def do_upcast(self, e, f):
        v = self.ev(e["upcast"], f)
        return {"int": v} if isinstance(e["as"], list) and v is not None else v

    def do_try(self, e, f):
        try:
            return self.block(e["try"], f)
        except User as err:
            if "filter" in e and err.msg not in e["filter"] and err.code not in e["filter"]:
                raise
        except Err as err:
            if "filter" in e and err.code not in e["filter"] and MESSAGES.get(err.code) not in e["filter"]:
                raise
        return None

    def do_error(self, e, f):
        raise User(e["error"], e.get("code"))

    def do_doc(self, e, f):
        return None

    def do_log(self, e, f):
        self.logged.append(([copy_tree(self.ev(x, f)) for x in e["log"]], e.get("namespace")))
        return None

    def do_unpack(self, e, f):
        b = self.ev(e["unpack"], f)
        n = len(e["format"])                                    # byte fields only
        if len(b) == n:
            g = Frame(f)
            for i, d in enumerate(e["format"]):
                (name, _), = d.items()
                x = b[i]
                g.vars[name] = self.sbyte(x)
            return self.block(e["then"], g)
        return self.block(e["else"], f) if "else" in e else None

    def sbyte(self, x):
        return x - 256 if x >= 128 else x

    # paths
    def do_attr(self, e, f):
        if "to" in e:
            v, p = self.ev(e["attr"], f), self.path(e["path"], f)
            return self.write(v, p, self.target(e["to"], f), 2002, 2003, f)
        return self.read(self.ev(e["attr"], f), self.path(e["path"], f), 2000, 2001)

    def do_cell(self, e, f):
        p = self.path(e.get("path", []), f)
        if "to" in e:
            t = self.target(e["to"], f)
            self.cells[e["cell"]] = self.write(self.cells[e["cell"]], p, t, 2006, 2007, f)
            return self.cells[e["cell"]]
        return self.read(self.cells[e["cell"]], p, 2004, 2005)

    def do_pool(self, e, f):
        if "del" in e:
            self.pools[e["pool"]].pop(self.ev(e["del"], f), None)
            return None
        p = self.path(e["path"], f)
        pool = self.pools[e["pool"]]
        if "to" in e:
            t = self.target(e["to"], f)
            init = self.ev(e["init"], f)
            old = pool[p[0]] if p[0] in pool else init
            pool = dict(pool)
            pool[p[0]] = self.write(old, p[1:], t, 2010, 2011, f)
            self.pools[e["pool"]] = pool
            return pool[p[0]]
        return self.read(pool, p, 2008, 2009)


KEYS = ["foreach", "forkey", "for", "while", "until", "if", "cond", "cast", "ifnotnull", "unpack", "try", "attr", "cell", "pool", "value", "new", "let", "set", "error"]
NAMES = {"+": "plus", "-": "minus", "*": "times", "<": "lt", "<=": "le", ">": "gt", "==": "eq", "&&": "and", "||": "or", "!": "not", "a.map": "a_map", "a.append": "a_append", "a.len": "a_len"}
TAGS = ("int", "string", "double", "long", "array", "map", "R")
MESSAGES = {18000: "int overflow", 18010: "int overflow", 18020: "int overflow"}


def aslist(x):
    return x if isinstance(x, list) else [x]


def concretize(p, n):
    if isinstance(p, int) and type(p) is int:
        return p
    for i in range(n):
        if p == i:
            return i
    raise AssertionError(p)


def ref_outcome(f):
    try:
        return ("ok", f())
    except Err as e:
        return ("err", e.code)
    except User as e:
        return ("user", (e.msg, e.code))


def real_outcome(f, *args):
    from titus.errors import PFARuntimeException, PFAUserException
    try:
        return ("ok", f(*args))
    except PFARuntimeException as e:
        return ("err", e.code)
    except PFAUserException as e:
        return ("user", (e.message, e.code))


def agree_outcome(c, got, want, label):
    c.observe(label + ".kind", got[0])
    c.observe(label + ".value", got[1])
    c.check(got[0] == want[0], label + ": outcome kind")
    c.check(c.same(got[1], want[1]) if got[0] == "ok" else got[1] == want[1], label + ": value or error")


# ------------------------------------------------------------------ C05 statement families

U = ["null", "int"]
V = ["null", "int", "string", {"type": "array", "items": "int"}]
REC = {"type": "record", "name": "In", "fields": [
    {"name": "a", "type": "int"}, {"name": "stop", "type": "int"},
    {"name": "n1", "type": "int"}, {"name": "n2", "type": "int"}, {"name": "n3", "type": "int"},
    {"name": "p1", "type": "boolean"}, {"name": "p2", "type": "boolean"}, {"name": "p3", "type": "boolean"},
    {"name": "u", "type": U}, {"name": "v", "type": V},
    {"name": "arr", "type": {"type": "array", "items": "int"}}, {"name": "m", "type": {"type": "map", "values": "int"}},
    {"name": "b", "type": "bytes"}]}


def add(x):
    return {"set": {"acc": {"+": ["acc", x]}}}


def statements(k):
    """The statement forms at nesting level k: name -> function from a body (list of statements) to a list of statements."""
    i, n, p, x = "i%d" % k, "input.n%d" % k, "input.p%d" % k, "x%d" % k
    t = "t%d" % k
    inc = {"set": {i: {"+": [i, 1]}}}
    return {
        "do": lambda b: [{"do": [{"let": {t: 7}}] + b + [{"set": {t: 5}}, add(t)]}, {"do": [{"let": {t: 3}}, add(t)]}],
        "if": lambda b: [{"if": p, "then": b}],
        "ifelse": lambda b: [{"if": p, "then": [add(100)], "else": [{"let": {t: "acc"}}] + b + [add(t)]}],
        "cond": lambda b: [{"cond": [{"if": {"<": [n, 1]}, "then": [add(50)]}, {"if": p, "then": b}]}],
        "condelse": lambda b: [{"cond": [{"if": {"<": [n, 1]}, "then": b}, {"if": p, "then": [{"let": {t: 9}}, add(t)]}], "else": b}],
        "while": lambda b: [{"let": {i: 0}}, {"while": {"<": [i, n]}, "do": [{"let": {t: i}}] + b + [inc, add(t)]}],
        "until": lambda b: [{"let": {i: 0}}, {"do": [{"let": {t: i}}] + b + [inc, add(t)], "until": {"<=": [n, i]}}],
        "for": lambda b: [{"for": {i: 0, "j%d" % k: 10}, "while": {"<": [i, n]}, "step": {i: {"+": [i, 1]}, "j%d" % k: {"+": ["j%d" % k, i]}}, "do": b + [add("j%d" % k)]}],
        "foreach": lambda b: [{"foreach": x, "in": "input.arr", "do": b + [add(x)], "seq": True}],
        "foreachset": lambda b: [{"foreach": x, "in": "input.arr", "do": [{"let": {t: x}}] + b + [{"set": {"last": t, "acc": {"+": ["acc", x]}}}], "seq": True}],
        "forkey": lambda b: [{"forkey": "k%d" % k, "forval": x, "in": "input.m", "do": b + [add(x)]}],
        "ifnotnull": lambda b: [{"ifnotnull": {x: "input.u"}, "then": b + [add(x)]}],
        "ifnotnullelse": lambda b: [{"ifnotnull": {x: "input.u", "y%d" % k: "input.u"}, "then": [{"let": {t: "y%d" % k}}, add({"+": [x, t]})], "else": [{"let": {t: 2}}] + b + [add(t)]}],
        "cast": lambda b: [{"cast": "input.v", "cases": [{"as": "int", "named": x, "do": b + [add(x)]}, {"as": {"type": "array", "items": "int"}, "named": x, "do": [add({"a.len": x})]}], "partial": True}],
        "castall": lambda b: [{"cast": "input.v", "cases": [{"as": "string", "named": x, "do": b + [1]}, {"as": "null", "named": x, "do": [add(4), 1]}, {"as": "int", "named": x, "do": [add(8), 1]},
                               {"as": {"type": "array", "items": "int"}, "named": x, "do": [add({"a.len": x}), 1]}]}],
        "unpack": lambda b: [{"unpack": "input.b", "format": [{x: "byte"}], "then": b + [add(x)], "else": [{"let": {t: 6}}, add(t)]}],
        "unpackelse": lambda b: [{"unpack": "input.b", "format": [{x: "byte"}, {"y%d" % k: "byte"}], "then": [add({"-": [x, "y%d" % k]})], "else": [{"let": {t: 6}}] + b + [add(t)]}],
    }


CORE = [{"let": {"w": {"+": ["acc", "input.a"]}}}, {"set": {"acc": "w", "last": "acc"}},
        {"if": {"==": ["acc", "input.stop"]}, "then": [{"error": "stop", "code": -9}]}]


def tried(k, flt=None):
    """try as an expression (its block may not change outer variables): null when the error is absorbed."""
    body = {"do": [{"let": {"r": {"+": ["acc", "input.a"]}}}, {"cond": [{"if": {"==": ["r", "input.stop"]}, "then": {"error": "stop", "code": -9}},
                                                                       {"if": "input.p3", "then": {"error": "E"}}, {"if": {">": ["r", 500]}, "then": {"error": "stop"}}], "else": "r"},
                   {"set": {"r": {"+": ["r", 1000000000]}}}, {"+": ["r", "input.n3"]}]}
    e = {"try": [body]}
    if flt is not None:
        e["filter"] = flt
    return [{"let": {"q": e}}, {"ifnotnull": {"s": "q"}, "then": [{"set": {"acc": "s"}}], "else": [{"set": {"last": {"+": ["last", 1]}}}]}]


CORE2 = [{"let": {"w": 1}}, {"set": {"w": "input.a", "acc": {"+": ["acc", "w"]}}}, add("w"), {"set": {"last": {"+": ["w", "last"]}}}]


def needs_of(doc_text):
    return [f["name"] for f in REC["fields"] if "input." + f["name"] + '"' in doc_text]


def program(stmts, fcns=None):
    doc = {"input": REC, "output": {"type": "array", "items": "int"},
           "action": [{"let": {"acc": 0, "last": 0}}] + stmts + [{"type": {"type": "array", "items": "int"}, "new": ["acc", "last"]}]}
    if fcns:
        doc["fcns"] = fcns
    return doc


def in_value(c, doc, nmax=2, full=False):
    need = needs_of(json.dumps(doc))
    out = {}
    lo, hi = INT if full else (-1000, 1000)
    for f in REC["fields"]:
        n = f["name"]
        if n not in need:
            out[n] = {"u": None, "v": None, "arr": [], "m": {}, "b": b"", "p1": False, "p2": False, "p3": False}.get(n, 0)
        elif n in ("n1", "n2", "n3"):
            out[n] = c.int(n, 0, nmax)
        elif n in ("p1", "p2", "p3"):
            out[n] = c.bool(n)
        elif n == "u":
            out[n] = c.choice("u?", [None, {"int": c.int("u", lo, hi)}])
        elif n == "v":
            out[n] = c.choice("v?", [None, {"int": c.int("vi", lo, hi)}, {"string": "x"}, {"array": [c.int("va", lo, hi)]}])
        elif n == "arr":
            out[n] = [c.int("arr%d" % i, lo, hi) for i in range(c.choice("arr#", [0, 1, 2]))]
        elif n == "m":
            out[n] = dict((k, c.int("m" + k, lo, hi)) for k in c.choice("m#", [(), ("k",), ("k", "l")]))
        elif n == "b":
            out[n] = c.bytes("b", 2)
        else:
            out[n] = c.int(n, lo, hi)
    return out


def compare_programs(name, docs, nmax=2, full=False, rewrite=lambda d: d, **kw):
    """Job: every program of `docs` computes on every input what the reference interpreter says."""
    names = list(docs)

    def setup():
        return dict((n, make_engine(rewrite(docs[n]))) for n in names)

    def fn(c, env):
        n = c.choice("program", names)
        doc = docs[n]
        v = in_value(c, doc, nmax, full)
        before = copy_tree(v)
        r, logged = Ref(doc), []
        want = ref_outcome(lambda: run_ref(r, copy_tree(v)))
        e = env[n].fresh()
        e.log = lambda xs, namespace=None: logged.append((list(xs), namespace))
        got = real_outcome(e.action, v, False)
        agree_outcome(c, got, want, name + "/" + n)
        c.check(c.same(v, before), name + "/" + n + ": input unmodified")
        c.check(c.same(logged, r.logged), name + "/" + n + ": log messages")
    return Job(name, fn, setup, **kw)


def run_ref(r, v):
    f = Frame()
    f.vars["input"] = v
    return r.block(r.doc["action"], f)



# ------------------------------------------------------------------ C05 value-yielding forms, functions, errors

def valued(k):
    """Forms yielding the value of their last expression: name -> function from two int expressions to an int expression."""
    p, n, x = "input.p%d" % k, "input.n%d" % k, "x%d" % k
    t = "t%d" % k
    lg = {"log": [{"+": ["input.a", k]}]}
    return {
        "do": lambda a, b: {"do": [{"let": {t: a}}, lg, {"+": [b, t]}]},
        "ifelse": lambda a, b: {"if": p, "then": [{"let": {t: a}}, lg, t], "else": b},
        "condelse": lambda a, b: {"cond": [{"if": {"==": [n, 0]}, "then": [lg, a]}, {"if": p, "then": [{"let": {t: b}}, {"+": [t, 1]}]}], "else": {"-": [a, b]}},
        "castall": lambda a, b: {"cast": "input.v", "cases": [{"as": "int", "named": x, "do": {"+": [x, a]}}, {"as": "string", "named": x, "do": [lg, b]}, {"as": "null", "named": x, "do": 5},
                                                            {"as": {"type": "array", "items": "int"}, "named": x, "do": [{"let": {t: b}}, {"+": [t, {"a.len": x}]}]}]},
        "ifnotnullelse": lambda a, b: {"ifnotnull": {x: "input.u"}, "then": {"+": [x, a]}, "else": [{"let": {t: b}}, lg, t]},
        "unpackelse": lambda a, b: {"unpack": "input.b", "format": [{x: "byte"}], "then": {"+": [x, a]}, "else": [lg, b]},
        "try": lambda a, b: {"ifnotnull": {x: {"try": [{"do": [lg, {"if": p, "then": {"error": "no", "code": -k}}, a]}]}}, "then": {"+": [x, 1]}, "else": b},
        "plus": lambda a, b: {"+": [{"do": [lg, a]}, {"do": [lg, {"log": [{"string": "second"}], "namespace": "ns"}, b]}]},
        "and": lambda a, b: {"if": {"&&": [{"<": [a, b]}, {"do": [lg, p]}]}, "then": a, "else": b},
        "or": lambda a, b: {"if": {"||": [{"<": [a, b]}, {"do": [lg, p]}]}, "then": a, "else": b},
        "call": lambda a, b: {"u.f": [a, b]},
        "call2": lambda a, b: {"u.g": [{"u.f": [b, a]}]},
        "fold": lambda a, b: {"attr": {"a.map": [{"type": {"type": "array", "items": "int"}, "new": [a, b]}, {"params": [{"y%d" % k: "int"}], "ret": "int", "do": [{"let": {t: {"+": ["y%d" % k, 1]}}}, lg, t]}]}, "path": [1]},
        "fill": lambda a, b: {"attr": {"a.map": [{"type": {"type": "array", "items": "int"}, "new": [a]}, {"fcn": "u.f", "fill": {"y": b}}]}, "path": [0]},
    }


FCNS = {"f": {"params": [{"x": "int"}, {"y": "int"}], "ret": "int", "do": [{"let": {"t": {"-": ["x", "y"]}}}, {"if": {">": ["t", 100000]}, "then": {"error": "big", "code": -8}}, {"set": {"t": {"+": ["t", "y"]}}}, {"+": ["t", {"+": ["y", "y"]}]}]},
        "g": {"params": [{"n": "int"}], "ret": "int", "do": [{"let": {"a": 1, "k": 0}}, {"while": {"<": ["k", 2]}, "do": [{"set": {"a": {"+": ["a", "n"]}, "k": {"+": ["k", 1]}}}]}, "a"]},
        # mutual recursion and recursion with locals
        "even": {"params": [{"n": "int"}], "ret": "boolean", "do": {"if": {"<=": ["n", 0]}, "then": {"==": ["n", 0]}, "else": {"u.odd": [{"-": ["n", 1]}]}}},
        "odd": {"params": [{"n": "int"}], "ret": "boolean", "do": {"if": {"<=": ["n", 0]}, "then": {"!": [{"==": ["n", 0]}]}, "else": {"u.even": [{"-": ["n", 1]}]}}},
        "rec": {"params": [{"n": "int"}, {"z": "int"}], "ret": "int", "do": [{"let": {"before": {"+": ["n", "z"]}}}, {"let": {"inner": {"if": {"<=": ["n", 0]}, "then": 0, "else": {"u.rec": [{"-": ["n", 1]}, {"+": ["z", "n"]}]}}}}, {"+": ["before", "inner"]}]},
        "fail": {"params": [{"n": "int"}], "ret": "int", "do": [{"if": {"==": ["n", 0]}, "then": {"error": "deep", "code": -7}}, {"u.fail": [{"-": ["n", 1]}]}]}}


def value_program(e):
    return {"input": REC, "output": "int", "action": [e], "fcns": FCNS}


LEAF1, LEAF2 = "input.a", {"+": ["input.stop", 3]}
MORE = {
    "even": value_program({"if": {"u.even": ["input.n1"]}, "then": 1, "else": 0}),
    "rec": value_program({"u.rec": ["input.n1", "input.a"]}),
    "fail deep": value_program({"u.fail": ["input.n1"]}),
    "try null": value_program({"do": [{"try": [{"log": ["input.n1"]}]}, "input.n1"]}),
    "fail caught": value_program({"ifnotnull": {"r": {"try": {"u.fail": ["input.n1"]}, "filter": ["deep"]}}, "then": "r", "else": -1}),
    "fail other filter": value_program({"ifnotnull": {"r": {"try": {"u.fail": ["input.n1"]}, "filter": ["shallow", -6]}}, "then": "r", "else": -1}),
    "error without code": value_program({"if": "input.p1", "then": {"error": "plain"}, "else": "input.a"}),
    "let is simultaneous": value_program({"do": [{"let": {"x": "input.a", "y": 1}}, {"let": {"u": {"+": ["x", "y"]}, "v": {"-": ["x", "y"]}}}, {"set": {"x": "v", "y": "x"}}, {"-": [{"+": ["u", "x"]}, "y"]}]}),
    "swap in a loop": value_program({"do": [{"let": {"x": "input.a", "y": "input.stop"}}, {"for": {"i": 0}, "while": {"<": ["i", "input.n1"]}, "step": {"i": {"+": ["i", 1]}}, "do": {"set": {"x": "y", "y": "x"}}}, {"-": ["x", "y"]}]}),
    "nested callbacks": value_program({"attr": {"a.map": ["input.arr", {"params": [{"x": "int"}], "ret": "int", "do": {"do": [{"let": {"t": {"a.map": ["input.arr", {"params": [{"y": "int"}], "ret": "int", "do": {"+": ["x", "y"]}}]}}}, {"attr": "t", "path": [0]}]}}]}, "path": [0]}),
    "loop with callback": value_program({"do": [{"let": {"s": 0}}, {"foreach": "x", "in": "input.arr", "do": [{"let": {"q": {"a.map": ["input.arr", {"params": [{"z": "int"}], "ret": "int", "do": {"-": ["z", {"+": ["x", "s"]}]}}]}}}, {"set": {"s": {"+": ["s", {"attr": "q", "path": [0]}]}}}], "seq": True}, "s"]}),
    "doc": value_program({"do": [{"doc": "nothing"}, "input.a"]}),
    "literals": value_program({"do": [{"let": {"l": {"type": {"type": "array", "items": "int"}, "value": [4, 5]}, "r": {"type": {"type": "record", "name": "R", "fields": [{"name": "x", "type": "int"}, {"name": "y", "type": {"type": "map", "values": "int"}}]}, "value": {"x": 3, "y": {"k": 2}}}}},
                                      {"+": [{"attr": "l", "path": [1]}, {"+": [{"attr": "r", "path": [["y"], ["k"]]}, {"+": ["r.x", "input.a"]}]}]}]}),
    "new": value_program({"do": [{"let": {"m": {"type": {"type": "map", "values": "int"}, "new": {"k": "input.a", "l": {"+": ["input.a", 1]}}}}}, {"-": [{"attr": "m", "path": [["l"]]}, {"+": [{"attr": "m", "path": [["k"]]}, "input.stop"]}]}]}),
    "upcast": value_program({"cast": {"upcast": "input.a", "as": ["int", "string"]}, "cases": [{"as": "int", "named": "x", "do": {"+": ["x", 1]}}, {"as": "string", "named": "x", "do": 0}]}),
}
OVER = {"try overflow": value_program({"ifnotnull": {"r": {"try": {"+": ["input.a", "input.stop"]}}}, "then": "r", "else": -1}),
        "try overflow code": value_program({"ifnotnull": {"r": {"try": {"-": ["input.a", "input.stop"]}, "filter": [18010]}}, "then": "r", "else": -1}),
        "try overflow message": value_program({"ifnotnull": {"r": {"try": {"+": ["input.a", "input.stop"]}, "filter": ["int overflow"]}}, "then": "r", "else": -1}),
        "try overflow elsewhere": value_program({"ifnotnull": {"r": {"try": {"+": ["input.a", {"-": ["input.stop", 5]}]}, "filter": [18000]}}, "then": "r", "else": -1}),
        "no try": value_program({"do": [{"let": {"x": {"+": ["input.a", 1]}}}, {"if": "input.p1", "then": {"error": "after"}}, {"-": ["x", "input.stop"]}]})}


def jobs(tier):
    deep = tier == "thorough"
    S1, S2, S3 = statements(1), statements(2), statements(3)
    V1, V2, V3 = valued(1), valued(2), valued(3)
    nmax = 3 if deep else 2
    for o in S1:
        docs = dict((i, program(S1[o](S2[i](CORE)))) for i in S2)
        docs["-"] = program(S1[o](CORE2))
        for k, f in (("try", None), ("try E", ["E"]), ("try -9", [-9, "x"]), ("try stop", ["stop"])):
            docs[k] = program(S1[o](tried(3, f)))
        yield compare_programs("nest-" + o, docs, nmax=nmax, limit=200)
        # the same form twice in a row, with the same local names
        yield compare_programs("seq-" + o, {"same": program([{"do": S1[o](CORE)}, {"do": S1[o](CORE2)}])}, nmax=nmax, limit=100)
        if deep:
            for i in S2:
                yield compare_programs("nest-%s-%s" % (o, i), dict((j, program(S1[o](S2[i](S3[j](CORE))))) for j in S3), nmax=2, limit=600)
    for o in V1:
        docs = dict((i, value_program(V1[o](V2[i](LEAF1, LEAF2), V3["do"]("input.n3", LEAF1)))) for i in V2)
        docs.update(("-" + i, value_program(V1[o](LEAF2, V2[i](LEAF2, LEAF1)))) for i in V2)
        yield compare_programs("value-" + o, docs, nmax=nmax, limit=200)
        if deep:
            for i in V2:
                yield compare_programs("value-%s-%s" % (o, i), dict((j, value_program(V1[o](V2[i](LEAF1, V3[j](LEAF2, LEAF1)), V3[j](LEAF1, LEAF2)))) for j in V3), nmax=2, limit=600)
    yield compare_programs("more", MORE, nmax=3 if not deep else 6, limit=200)
    yield compare_programs("overflow", OVER, full=True, limit=200)
