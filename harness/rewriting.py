"""C34 Python expressions turned into PFA (titus/producer/expression.py) and JSON tools (titus/producer/tools.py)."""
import ast

from harness.lib import *

NUMS = {"x": "int", "y": "int", "z": "int", "a": "double", "b": "double", "p": "boolean", "q": "boolean", "r": "boolean"}


class Raised(Exception):
    pass


class Py(object):
    """What Python computes; an integer that does not fit its PFA type is an error, as it is in PFA."""

    def __init__(self, c, log):
        self.c, self.log = c, log

    def fit(self, v):
        if isinstance(v, int) and not isinstance(v, bool):
            if self.c.or_(v < INT_MIN, v > INT_MAX):
                raise Err("overflow")
        return v

    def binary(self, op, x, y):
        c = self.c
        ints = isinstance(x, int) and isinstance(y, int)
        if isinstance(op, ast.Add):
            return self.fit(x + y)
        if isinstance(op, ast.Sub):
            return self.fit(x - y)
        if isinstance(op, ast.Mult):
            return self.fit(x * y)
        if isinstance(op, ast.Div):
            c.assume(y != 0)
            return (x + 0.0) / y
        if isinstance(op, ast.FloorDiv):
            c.assume(c.and_(x >= 0, y > 0))      # PFA's integer division truncates, Python's rounds down
            return x // y
        if isinstance(op, ast.Mod):
            c.assume(y > 0)
            if ints:
                return x % y
            raise Err(SKIP)
        if isinstance(op, ast.Pow):
            v = 1 if ints else 1.0
            for _ in range(int(y)):
                v = v * x
            return self.fit(v)
        if isinstance(op, (ast.BitAnd, ast.BitOr, ast.BitXor)):
            k = type(op).__name__
            return x & y if k == "BitAnd" else x | y if k == "BitOr" else x ^ y
        raise ValueError(op)

    def compare(self, op, x, y):
        k = type(op).__name__
        if k == "Eq":
            return x == y
        if k == "NotEq":
            return x != y
        if k == "Lt":
            return x < y
        if k == "LtE":
            return x <= y
        if k == "Gt":
            return x > y
        return x >= y

    def ev(self, e, env):
        c = self.c
        if isinstance(e, ast.Constant):
            return e.value
        if isinstance(e, ast.Name):
            return env[e.id]
        if isinstance(e, ast.BinOp):
            x = self.ev(e.left, env)
            return self.binary(e.op, x, self.ev(e.right, env))
        if isinstance(e, ast.UnaryOp):
            if isinstance(e.op, ast.USub) and isinstance(e.operand, ast.Constant):
                return -e.operand.value
            v = self.ev(e.operand, env)
            if isinstance(e.op, ast.Not):
                return c.not_(v)
            return self.fit(-v) if isinstance(e.op, ast.USub) else -v - 1
        if isinstance(e, ast.BoolOp):
            stop = isinstance(e.op, ast.Or)
            for s in e.values:
                v = self.ev(s, env)
                if v if stop else c.not_(v):
                    return stop
            return not stop
        if isinstance(e, ast.Compare):
            x = self.ev(e.left, env)
            for op, s in zip(e.ops, e.comparators):
                y = self.ev(s, env)
                if not self.compare(op, x, y):
                    return False
                x = y
            return True
        if isinstance(e, ast.IfExp):
            return self.ev(e.body, env) if self.ev(e.test, env) else self.ev(e.orelse, env)
        if isinstance(e, ast.Attribute):
            return self.ev(e.value, env)[e.attr]
        if isinstance(e, ast.Subscript):
            return self.ev(e.value, env)[self.ev(e.slice, env)]
        if isinstance(e, ast.Call):
            x = [self.ev(s, env) for s in e.args]
            k = ast.unparse(e.func)
            if k == "a.len":
                return len(x[0])
            if k in ("Max", "max"):
                return x[0] if x[0] > x[1] else x[1]
            if k == "Plus":
                return self.fit(x[0] + x[1])
            if k == "Minus":
                return self.fit(x[0] - x[1])
            if k == "Times":
                return self.fit(x[0] * x[1])
            if k == "Negative":
                return self.fit(-x[0])
            if k == "And":
                return c.and_(x[0], x[1])
            if k == "Or":
                return c.or_(x[0], x[1])
            if k == "XOr":
                return c.not_(c.eq(x[0], x[1]))
            if k == "Not":
                return c.not_(x[0])
            if k == "BitwiseAnd":
                return x[0] & x[1]
            if k == "BitwiseXOr":
                return x[0] ^ x[1]
            if k == "BitwiseOr":
                return x[0] | x[1]
            if k == "BitwiseNot":
                return -x[0] - 1
            if k == "Comparison":
                return -1 if x[0] < x[1] else 1 if x[0] > x[1] else 0
            k = {"Equal": ast.Eq, "NotEqual": ast.NotEq, "LessThan": ast.Lt, "LessOrEqual": ast.LtE, "GreaterThan": ast.Gt, "GreaterOrEqual": ast.GtE,
                 "Min": ast.Lt}.get(k)
            if k is ast.Lt and ast.unparse(e.func) == "Min":
                return x[0] if x[0] < x[1] else x[1]
            return self.compare(k(), x[0], x[1])
        raise ValueError(ast.dump(e))

    def run(self, stmts, env):
        out = None
        for s in stmts:
            if isinstance(s, ast.Expr):
                if isinstance(s.value, ast.Call) and ast.unparse(s.value.func) == "print":
                    self.log.append([self.ev(x, env) for x in s.value.args])
                else:
                    out = self.ev(s.value, env)
            elif isinstance(s, ast.Assign):
                t = s.targets[0]
                if isinstance(t, ast.Name):
                    env[t.id] = self.ev(s.value, env)
                else:
                    vs = [self.ev(x, env) for x in s.value.elts]
                    for n, v in zip(t.elts, vs):
                        env[n.id] = v
            elif isinstance(s, ast.If):
                if self.ev(s.test, env):
                    out = self.run(s.body, env)
                else:
                    out = self.run(s.orelse, env)
            elif isinstance(s, ast.While):
                while self.ev(s.test, env):
                    self.run(s.body, env)
            elif isinstance(s, ast.For):
                it = self.ev(s.iter, env)
                if isinstance(s.target, ast.Name):
                    for v in it:
                        env[s.target.id] = v
                        self.run(s.body, env)
                else:
                    for k, v in it.items():
                        env[s.target.elts[0].id] = k
                        env[s.target.elts[1].id] = v
                        self.run(s.body, env)
            elif isinstance(s, ast.Raise):
                raise Raised(s.exc.value)
            elif not isinstance(s, ast.Pass):
                raise ValueError(ast.dump(s))
        return out


def reference(c, text, env, log):
    try:
        return ("ok", Py(c, log).run(ast.parse(text).body, dict(env)))
    except Err as e:
        return ("err", e.code)
    except Raised as e:
        return ("user", str(e))


def compile_(text, params, ret, **kw):
    from titus.producer.expression import fcn
    types = dict((n, params[n]) for n in params)
    doc = {"input": {"type": "record", "name": "SxInput", "fields": [{"name": n, "type": t} for n, t in types.items()]}, "output": ret,
           "action": {"u.f": ["input." + n for n in types]},
           "fcns": {"f": fcn([{n: t} for n, t in types.items()], ret, text, **kw)}}
    return make_engine(once(doc, set()))


def names(text):
    return sorted(set(n.id for n in ast.walk(ast.parse(text)) if isinstance(n, ast.Name)))


def value(c, n, t, small):
    if t == "int":
        return c.int(n, -50, 50) if small else c.int(n)
    return gen(c, n, t, B())


def judge(c, eng, text, vals, label):
    log = []
    eng = eng.fresh()
    eng.log = lambda xs, namespace=None: log.append(list(xs))
    want_log = []
    want = reference(c, text, vals, want_log)
    if want == ("err", SKIP):
        return
    before = copy_tree(vals)
    from titus.errors import PFAUserException
    try:
        got = outcome(eng.action, vals)
        if got[0] == "user":
            got = ("user", "")
    except PFAUserException as e:
        got = ("user", str(e))
    c.observe(label + ".got", got[0])
    c.check(got[0] == want[0], label + ": outcome")
    if want[0] == "ok":
        c.check(c.same(got[1], want[1]), label + ": value")
    c.check(c.same(log, want_log), label + ": printed")
    c.check(c.same(vals, before), label + ": inputs kept")


def expressions(name, texts, ret, small=True, **kw):
    def setup():
        return [compile_(t, dict((n, NUMS[n]) for n in names(t) if n in NUMS) or {"x": "int"}, ret) for t in texts]

    def fn(c, env):
        i = c.choice("text", list(range(len(texts))))
        t = texts[i]
        vals = dict((n, value(c, n, NUMS[n], small)) for n in names(t) if n in NUMS) or {"x": 0}
        judge(c, env[i], t, vals, t)
    return Job(name, fn, setup, **kw)


def program(name, text, params, ret, given=None, fixed=None, **kw):
    def setup():
        return compile_(text, params, ret, **kw)

    def fn(c, env):
        if given:
            vals = given(c)
        else:
            vals = dict((n, value(c, n, t, True) if not isinstance(t, dict) else gen(c, n, t, B(arr=3, keys="ab"))) for n, t in params.items())
        if fixed:
            fixed(c, vals)
        judge(c, env, text, vals, name)
    return Job("program " + name, fn, setup)


def expression_jobs(tier):
    arith = ["+", "-", "*"]
    out = []
    pairs = [(o, p) for o in arith + ["//", "%"] for p in arith + ["//", "%"]]
    for o in arith + ["//", "%"]:
        ts = []
        for q, p in pairs:
            if q == o:
                ts += ["x %s y %s z" % (q, p), "x %s (y %s z)" % (q, p)]
        # products of unknowns stay small; divisors are concrete in nonlinear places
        ts = [t.replace("% z", "% 7").replace("// z", "// 3") for t in ts]
        ts = [t.replace("% (y", "% (5 + y").replace("// (y", "// (5 + y") for t in ts]
        out.append(expressions("ints %s" % o, [t.replace("* y", "* 3").replace("(y * z)", "(y * 4)") for t in ts if len(names(t)) > 0], "int"))
    out.append(expressions("ints unary", ["-x", "-(x + y)", "-x + y", "x - -y", "-x * 3", "(-x) % 7", "~x", "~x + 1", "-3", "x + -3", "-(3)", "x ** 2", "-x ** 2", "(-x) ** 2", "2 + x ** 2 * 3",
                                          "x & 6 | 1", "x ^ 3 & 5", "(x | 3) & 5", "-2147483648 + x"], "int"))
    out.append(expressions("ints overflow", ["x + y", "x - y", "x * 3", "-x", "x + y - z", "x - (y - z)"], "int", small=False))
    out.append(expressions("doubles", ["a + b * 2", "(a + b) * 2", "a / b", "a / 2 / b", "a / (2 / b)", "a - b - 1.5", "a - (b - 1.5)", "-a", "-a - b", "a * 2 / 4 + b", "x / y", "x + a", "a * x - 2", "1 / 2 + a",
                                       "a ** 2 + b", "2.5", "-2.5"], "double"))
    rel = ["<", "<=", ">", ">=", "==", "!="]
    out.append(expressions("comparisons", ["x %s y" % o for o in rel] + ["x %s y + z" % o for o in rel] + ["a %s b" % o for o in rel] + ["x %s a" % o for o in rel], "boolean"))
    out.append(expressions("chained comparisons", ["x %s y %s z" % (o, p) for o in rel for p in rel] + ["x < y < z < 3", "x == y == z != 2", "0 <= x < 10 > y", "1 < a <= b"], "boolean"))
    out.append(expressions("logic", ["p and q", "p or q", "not p", "p and q or r", "p or q and r", "(p or q) and r", "not p and q", "not (p and q)", "p and q and r", "p or q or r", "p and not q or r",
                                     "p and (q and r)", "p or (q or r)", "not p or not q", "x < y and p", "x < y or y < z and p", "not x < y", "True", "False", "p and True", "p or False", "p and q and r and x > 3"], "boolean"))
    out.append(expressions("choices", ["x if p else y", "x if p and q else y if r else z", "(x if p else y) + 1", "x + (y if p else z) * 2", "x if x > y else y", "(x if p else y) if q else z", "1 if not p else -1"], "int"))
    out.append(expressions("named functions", ["Plus(x, y)", "Minus(x, y)", "Times(x, 3)", "Negative(x)", "Max(x, y)", "Min(x, y)", "BitwiseNot(x)", "Comparison(x, y)", "Minus(Negative(x), Plus(y, z))",
                                               "max(x, y)"], "int"))
    out.append(expressions("named predicates", ["And(p, q)", "Or(p, q)", "XOr(p, q)", "Not(p)", "Equal(x, y)", "NotEqual(x, y)", "LessThan(x, y)", "LessOrEqual(x, y)", "GreaterThan(x, y)",
                                                "GreaterOrEqual(x, y)", "And(Not(p), Or(q, r))"], "boolean"))

    ARR, MAP = {"type": "array", "items": "int"}, {"type": "map", "values": "int"}
    REC = {"type": "record", "name": "Rec", "fields": [{"name": "f", "type": "int"}, {"name": "g", "type": "double"}, {"name": "h", "type": {"type": "array", "items": {"type": "map", "values": "int"}}}]}

    def positive(c, v):
        c.assume(c.and_(v["x"] >= -1, v["x"] <= 3))
    xy = {"x": "int", "y": "int"}
    out += [
        program("let", "s = x + y\nt = s * 2\nt - x", xy, "int"),
        program("set", "s = x\ns = s + y\ns = s * 2\ns", xy, "int"),
        program("swap", "s, t = x, y\ns, t = t, s\ns - t", xy, "int"),
        program("swap once", "s = x\nt = y\ns, t = t, s + 1\ns * 2 - t", xy, "int"),
        program("if else", "s = 0\nif x > y:\n  s = x\nelse:\n  s = y\ns", xy, "int"),
        program("if only", "s = y\nif x > y:\n  s = x\ns", xy, "int"),
        program("if value", "if x > y:\n  t = x\n  t + 1\nelse:\n  y - 1\n", xy, "int"),
        program("elif", "if x > y:\n  1\nelif x == y:\n  2\nelse:\n  3", xy, "int"),
        program("elif chain", "s = 0\nif x > 10:\n  s = 1\nelif y > 10:\n  s = 2\nelif x > 5:\n  s = 3\nelse:\n  s = 4\ns", xy, "int"),
        program("elif without else", "s = 0\nif x > 10:\n  s = 1\nelif y > 10:\n  s = 2\ns", xy, "int"),
        program("nested if", "s = 0\nif x > y:\n  if x > 10:\n    s = 1\n  else:\n    s = 2\nelse:\n  if y > 10:\n    s = 3\ns", xy, "int"),
        program("else holds an if and more", "s = 0\nif x > y:\n  s = 1\nelse:\n  if y > 10:\n    s = 3\n  s = s + 5\ns", xy, "int"),
        program("own names per branch", "s = 0\nif x > y:\n  t = x\n  s = t\nelse:\n  t = y\n  s = t - 1\ns", xy, "int"),
        program("while", "n = x\ns = 0\nwhile n > 0:\n  s = s + n * y\n  n = n - 1\ns", xy, "int", fixed=positive),
        program("while with local", "n = x\ns = 0\nwhile n > 0:\n  t = n + y\n  s = s + t\n  n = n - 1\ns", xy, "int", fixed=positive),
        program("for", "s = x\nfor v in arr:\n  s = s * 2 + v % 10\ns", {"x": "int", "arr": ARR}, "int"),
        program("for with local and if", "s = 0\nfor v in arr:\n  if v > x:\n    t = v % 10\n    s = s + t\n  else:\n    s = s - 1\ns", {"x": "int", "arr": ARR}, "int"),
        program("nested for", "s = 0\nfor v in arr:\n  for w in arr:\n    if v < w:\n      s = s + 1\ns", {"arr": ARR}, "int"),
        program("for key value", "s = x\nfor k, v in m:\n  if k == 'a':\n    s = s + v % 100\n  else:\n    s = s - v % 100\ns", {"x": "int", "m": MAP}, "int"),
        program("print", "print(x)\ns = x + y\nprint(s, y)\nif x > y:\n  print(x - y)\ns", xy, "int"),
        program("raise", "if x > y:\n  raise 'too big'\nx + 1", xy, "int"),
        program("pass", "if x > y:\n  pass\nx + 1", xy, "int"),
        program("chain is lazy", "x < y and y < 10 and x > 0", xy, "boolean"),
        program("strings", "s == 'a' or s == t", {"s": "string", "t": "string"}, "boolean"),
        program("field", "rec.f + x", {"x": "int", "rec": REC}, "int"),
        program("field arithmetic", "rec.g * 2 - rec.f", {"rec": REC}, "double"),
    ]

    def inside(c):
        v = {"rec": {"f": c.int("f"), "g": c.real("g")}}
        v["rec"]["h"] = [{"a": c.int("h0"), "b": c.int("h1")}, {"a": c.int("h2"), "b": c.int("h3")}]
        v["m"] = {"a": c.int("ma"), "b": c.int("mb")}
        v["arr"] = [c.int("a0"), c.int("a1"), c.int("a2")]
        v["i"] = c.choice("i", [0, 1])
        v["k"] = c.choice("k", ["a", "b"])
        return v
    deep = {"rec": REC, "m": MAP, "arr": ARR, "i": "int", "k": "string"}
    out += [program("subscripts %d" % n, t, deep, "int", given=inside) for n, t in enumerate(
        ["arr[i]", "arr[i + 1]", "arr[2]", "m[k]", "m['b']", "m.a", "rec.h[i][k]", "rec.h[1].a", "rec.h[i]['b']", "arr[arr[0] * 0 + i]", "max(arr[i], m[k])", "a.len(arr)", "rec['f']"])]

    def cells_setup():
        from titus.producer.expression import pfa
        doc = {"input": "int", "output": "int",
               "cells": {"acc": {"type": {"type": "record", "name": "Acc", "fields": [{"name": "n", "type": "int"}, {"name": "v", "type": {"type": "array", "items": "int"}}]}, "init": {"n": 7, "v": [1, 2]}}},
               "pools": {"grp": {"type": {"type": "record", "name": "Grp", "fields": [{"name": "n", "type": "int"}]}, "init": {"one": {"n": 4}, "two": {"n": 5}}}},
               "action": None}
        texts = ["acc.n - input", "acc.v[1] * 2 + input", "grp.one.n + input", "grp['two'].n - input", "acc.v[input]", "lim + input", "Plus(lim, input)",
                 "acc.v[lim - 10] - input"]
        want = [lambda x: 7 - x, lambda x: 4 + x, lambda x: 4 + x, lambda x: 5 - x, lambda x: [1, 2][x], lambda x: 11 + x, lambda x: 11 + x, lambda x: 2 - x]
        engines = []
        for line in (True, False):
            for t in texts:
                d = copy.deepcopy(doc)
                d["action"] = pfa(t, {"lim": 11} if "input" not in t else None, ["input"], ["acc"], ["grp"], {"lineNumbers": line}, **({"lim": 11} if "lim" in t else {}))
                engines.append(make_engine(d))
        return engines, want + want, texts + texts

    def cells_fn(c, env):
        engines, want, texts = env
        i = c.choice("text", list(range(len(texts))))
        x = c.choice("input", [0, 1]) if texts[i] == "acc.v[input]" else c.int("input", -1000, 1000)
        got = act(engines[i], x)
        agree(c, got, ("ok", want[i](x)), texts[i])
    out.append(Job("cells, pools and substitutions", cells_fn, cells_setup))

    def forms_fn(c, env):
        from titus.producer.expression import pfa, fcn, PythonToPfaException
        k, n = c.int("k"), c.real("n")
        s = c.str("s", 2)

        def strip(x):
            if isinstance(x, dict):
                return dict((a, strip(b)) for a, b in x.items() if a != "@")
            return [strip(b) for b in x] if isinstance(x, list) else x
        # substitutions keep what they are given, wherever they stand
        c.check(c.same(strip(pfa("f(one, two)", one=k, two={"string": s})), {"f": [k, {"string": s}]}), "substituted arguments")
        c.check(c.same(strip(pfa("{'a': one, 'b': [1, -2, 2.5, True, None, 'hey', two]}", one=k, two=n)), {"a": k, "b": [1, -2, 2.5, True, None, "hey", n]}), "literal JSON")
        subs = {"one": k}
        c.check(c.same(strip(pfa("v = one", subs, two=n)), {"let": {"v": k}}), "let")
        c.check(list(subs) == ["one"], "the substitutions given are not changed")
        c.check(c.same(strip(pfa("v = one", {"one": k}, ["v"])), {"set": {"v": k}}), "set of a symbol in scope")
        sym = ["w"]
        pfa("v = 1", None, sym)
        c.check(sym == ["w"], "the symbols given are not changed")
        c.check(c.same(strip(pfa("one", {"one": k}, options={"wantArray": True})), [k]), "asked for an array")
        c.check(c.same(pfa("v = one", {"one": k}, options={"lineNumbers": False}), {"let": {"v": k}}), "no line numbers")
        c.check(c.same(pfa("1\n\nv = one", {"one": k})[1], {"@": "Python line 3", "let": {"v": k}}), "line numbers")
        c.check(c.same(strip(fcn([{"v": "int"}], "int", "v + one", one=k)), {"params": [{"v": "int"}], "ret": "int", "do": {"+": ["v", k]}}), "function")
        c.check(c.same(strip(pfa("New(one, type=two)", one=[k, 2], two="int")), {"new": [k, 2], "type": "int"}), "special form")
        for bad in ["x << 2", "x >> 2", "+x", "x is None", "x in y", "lambda q: q", "def f(): pass", "x += 1", "import os", "x[1:2]", "x[1, 2]", "raise Foo", "raise", "x @ y", "del x", "1j",
                    "[q for q in y]", "x, y = 1, 2, 3", "x, y, z = 1, 2", "x, x = 1, 2", "return 3", "(x < y)()", "x[0] = 3", "for x[0] in y: pass", "assert x", "{1: 2}"]:
            try:
                pfa(bad)
                c.fail("accepted: " + bad)
            except (PythonToPfaException, SyntaxError):
                pass
        try:
            pfa("v, w = 1, 2", None, ["v"])
            c.fail("declares and reassigns at once")
        except PythonToPfaException:
            pass
    out.append(Job("forms and refusals", forms_fn, lambda: True))
    return out


# ---------------------------------------------------------------------- JSON structures and patterns

def leaf(c, n):
    k = c.choice(n + "?", ["int", "str", "other"])
    if k == "int":
        return c.int(n)
    if k == "str":
        return c.str(n, 1, minlen=1)
    return c.choice(n + "!", [None, True, False, 1.5])


SHAPES = {
    "leaf": lambda c: leaf(c, "h0"),
    "list1": lambda c: [leaf(c, "h0")],
    "list2": lambda c: [leaf(c, "h0"), leaf(c, "h1")],
    "dict1": lambda c: {"a": leaf(c, "h0")},
    "dict2": lambda c: {"b": leaf(c, "h0"), "a": leaf(c, "h1")},
    "at": lambda c: {"@": "line 1", "a": leaf(c, "h0")},
    "empty": lambda c: [],
    "list in dict": lambda c: {"a": [leaf(c, "h0"), 3], "c": {}},
    "dict in list": lambda c: [{"a": leaf(c, "h0")}, [leaf(c, "h1")]],
    "ints": lambda c: [c.int("h0"), c.int("h1"), c.int("h2")],
    "deep": lambda c: {"x": [{"b": [c.int("h0")], "@": "l", "a": {"a": c.int("h1")}}]},
    "same": lambda c: {"a": {"a": [c.int("h0")], "b": None}, "b": [[c.int("h1")], c.str("h2", 1, minlen=1)]},
}


def number(x):
    return isinstance(x, (int, float)) and not isinstance(x, bool)


def kind(x):
    if x is None:
        return "null"
    if isinstance(x, bool):
        return "boolean"
    if number(x):
        return "number"
    return "string" if isinstance(x, str) else "list" if isinstance(x, (list, tuple)) else "object"


def strip(x):
    if isinstance(x, dict):
        return dict((k, strip(v)) for k, v in x.items() if k != "@")
    if isinstance(x, (list, tuple)):
        return [strip(v) for v in x]
    return x


def matches(c, p, h):
    """None or the groups: what the pattern constructor's documentation says matches."""
    if isinstance(p, tuple):
        op, args = p[0], p[1:]
        if op == "any":
            return {} if len(args) == 0 or kind(h) in args else None
        if op == "group":
            g = matches(c, args[1], h)
            return None if g is None else dict(list(g.items()) + [(args[0], h)])
        if op == "min":
            if kind(h) != "object":
                return None
            groups = {}
            for k in args[0]:
                if k not in h:
                    return None
                g = matches(c, args[0][k], h[k])
                if g is None:
                    return None
                groups.update(g)
            return groups
        if op in ("start", "end"):
            if kind(h) != "list" or len(h) < len(args):
                return None
            part = h[:len(args)] if op == "start" else h[len(h) - len(args):]
            return matches(c, list(args), part)
        if op == "or":
            for q in args:
                g = matches(c, q, h)
                if g is not None:
                    return g
            return None
        if op == "and":
            for q in args:
                g = matches(c, q, h)
                if g is None:
                    return None
            return g
        if kind(h) != "number":
            return None
        if op == "approx":
            return {} if c.and_(h >= args[0] - args[1], h <= args[0] + args[1]) else None
        return {} if {"lt": lambda: h < args[0], "le": lambda: h <= args[0], "gt": lambda: h > args[0], "ge": lambda: h >= args[0]}[op]() else None
    if kind(p) != kind(h):
        return None
    if isinstance(p, dict):
        if set(k for k in p if k != "@") != set(k for k in h if k != "@"):
            return None
        groups = {}
        for k in p:
            if k != "@":
                g = matches(c, p[k], h[k])
                if g is None:
                    return None
                groups.update(g)
        return groups
    if isinstance(p, list):
        if len(p) != len(h):
            return None
        groups = {}
        for q, x in zip(p, h):
            g = matches(c, q, x)
            if g is None:
                return None
            groups.update(g)
        return groups
    if p is None:
        return {}
    return {} if c.eq(p, h) else None


def build(p):
    from titus.producer import tools as t
    if isinstance(p, tuple):
        op, args = p[0], p[1:]
        if op == "any":
            types = {"string": str, "list": list, "object": dict}
            return t.Any(*[types[x] for x in args])
        if op == "group":
            return t.Group(**{args[0]: build(args[1])})
        if op == "min":
            return t.Min(**dict((k, build(v)) for k, v in args[0].items()))
        if op in ("approx", "lt", "le", "gt", "ge"):
            return {"approx": t.Approx, "lt": t.LT, "le": t.LE, "gt": t.GT, "ge": t.GE}[op](*args)
        return {"start": t.Start, "end": t.End, "or": t.Or, "and": t.And}[op](*[build(x) for x in args])
    if isinstance(p, dict):
        return dict((k, build(v)) for k, v in p.items())
    if isinstance(p, list):
        return [build(x) for x in p]
    return p


def subtrees(h, at=()):
    """Every place in the structure, the parts before the whole, object keys in order."""
    if isinstance(h, dict):
        for k in sorted(h):
            for x in subtrees(h[k], at + (k,)):
                yield x
    elif isinstance(h, (list, tuple)):
        for i in range(len(h)):
            for x in subtrees(h[i], at + (i,)):
                yield x
    yield at, h


def containers(h):
    return [x for _, x in subtrees(h) if isinstance(x, (dict, list))]


def replaced(h, at, to):
    if len(at) == 0:
        return to
    if isinstance(h, dict):
        return dict((k, replaced(v, at[1:], to) if k == at[0] else v) for k, v in h.items())
    return [replaced(v, at[1:], to) if i == at[0] else v for i, v in enumerate(h)]


PATTERNS = {
    "int": lambda c: c.int("p0"),
    "string": lambda c: c.str("p0", 1, minlen=1),
    "one": lambda c: 1,
    "zero": lambda c: 0,
    "true": lambda c: True,
    "false": lambda c: False,
    "null": lambda c: None,
    "float": lambda c: 1.5,
    "list": lambda c: [c.int("p0"), ("any",)],
    "list one": lambda c: [("any",)],
    "empty list": lambda c: [],
    "object": lambda c: {"a": c.int("p0")},
    "object two": lambda c: {"a": ("any",), "b": c.int("p0")},
    "object with line": lambda c: {"@": "line 77", "a": ("any",)},
    "empty object": lambda c: {},
    "nested": lambda c: {"a": {"a": ("any",)}},
    "any": lambda c: ("any",),
    "any string": lambda c: ("any", "string"),
    "any list": lambda c: ("any", "list"),
    "any list or object": lambda c: ("any", "list", "object"),
    "min": lambda c: ("min", {"a": ("any",)}),
    "min int": lambda c: ("min", {"a": c.int("p0")}),
    "min empty": lambda c: ("min", {}),
    "start": lambda c: ("start", c.int("p0")),
    "start two": lambda c: ("start", ("any",), c.int("p0")),
    "start none": lambda c: ("start",),
    "end": lambda c: ("end", c.int("p0")),
    "end two": lambda c: ("end", c.int("p0"), ("any",)),
    "or": lambda c: ("or", c.int("p0"), c.str("p1", 1, minlen=1), None),
    "or order": lambda c: ("or", ("group", "a", ("lt", 5)), ("group", "b", ("lt", 9))),
    "and": lambda c: ("and", ("gt", c.int("p0")), ("lt", c.int("p1"))),
    "approx": lambda c: ("approx", c.int("p0", -1000, 1000), c.int("p1", 0, 10)),
    "lt": lambda c: ("lt", c.int("p0")),
    "le": lambda c: ("le", c.int("p0")),
    "gt": lambda c: ("gt", c.int("p0")),
    "ge": lambda c: ("ge", c.int("p0")),
    "group any": lambda c: ("group", "g", ("any",)),
    "group literal": lambda c: ("group", "g", c.int("p0")),
    "group object": lambda c: ("group", "g", {"a": ("group", "h", ("any",))}),
    "groups in list": lambda c: [("group", "g", ("gt", 3)), ("group", "h", ("any",))],
    "groups in min": lambda c: ("min", {"a": ("group", "g", ("any",))}),
    "groups at end": lambda c: ("end", ("group", "g", ("any",))),
    "groups at start": lambda c: ("start", ("group", "g", ("any",))),
}


def pattern_job(name, mk, tier):
    def fn(c, env):
        from titus.producer import tools as t
        h = SHAPES[c.choice("shape", sorted(SHAPES))](c)
        p = mk(c)
        before = copy_tree(h)
        want = []
        for at, x in subtrees(h):
            g = matches(c, p, x)
            if g is not None:
                want.append((at, x, g))
        got = list(t.search(build(p), h))
        c.observe("found", [list(at) for at, _ in got])
        c.check(len(got) == len(want), name + ": number of matches")
        inside = set(id(x) for x in containers(h))
        for (at, m), (wat, x, g) in zip(got, want):
            c.check(tuple(at) == wat, name + ": place of the match")
            c.check(c.same(strip(m.original), strip(x)), name + ": the match is what was there")
            c.check(c.same(strip(m.modified), strip(x)), name + ": nothing was substituted")
            c.check(c.same(strip(m.groups), strip(g)), name + ": groups")
            for part in containers(m.original) + containers(m.modified) + containers(m.groups):
                c.check(id(part) not in inside, name + ": the match is a copy")
        c.check(t.count(build(p), h) == len(want), name + ": count")
        c.check(t.contains(build(p), h) == (len(want) > 0), name + ": contains")
        i, first = t.index(build(p), h), t.searchFirst(build(p), h)
        ref, cp = t.findRef(build(p), h), t.findCopy(build(p), h)
        if want:
            c.check(i == want[0][0], name + ": index")
            c.check(first[0] == want[0][0], name + ": first")
            c.check(ref is want[0][1], name + ": reference")
            c.check(c.same(strip(cp), strip(want[0][1])), name + ": copy")
        else:
            c.check(i is None and first is None and ref is None and cp is None, name + ": no match")
        c.check([tuple(x) for x in t.indexes(build(p), h)] == [w[0] for w in want], name + ": indexes")
        refs, copies = list(t.findAllRef(build(p), h)), list(t.findAllCopy(build(p), h))
        c.check(len(refs) == len(want) and all([r is w[1] for r, w in zip(refs, want)]), name + ": all references")
        c.check(c.same(strip(copies), [strip(w[1]) for w in want]), name + ": all copies")
        c.check(c.same(h, before), name + ": searching changes nothing")

        # replacing: where no match lies inside another and the whole does not match
        places = [w[0] for w in want]
        if () not in places and not any(a != b and b[:len(a)] == a for a in places for b in places):
            to = c.int("to")
            expect = before
            for at in places:
                expect = replaced(expect, at, to)
            out = t.assignedAt(build(p), h, to)
            c.check(c.same(out, expect), name + ": assignedAt")
            c.check(c.same(h, before), name + ": assignedAt leaves the original")
            t.assignAt(build(p), h, to)
            c.check(c.same(h, expect), name + ": assignAt")
    return Job("pattern " + name, fn, lambda: True, max_paths=3000)


def place_job(shape):
    def fn(c, env):
        from titus.producer import tools as t
        h = SHAPES[shape](c)
        before = copy_tree(h)
        to = {"new": [c.int("to")]}
        for n, (at, x) in enumerate(list(subtrees(h))):
            c.check(t.get(h, at) is x, "get")
            text = ", ".join(str(i) for i in at)
            if at:
                c.check(t.get(h, text) is x, "get with a text index")
                for form in (at, list(at), text, text.replace(" ", "")):
                    c.check(c.same(t.assigned(h, form, to), replaced(before, at, to)), "assigned")
                    c.check(c.same(h, before), "assigned leaves the original")
                    gone = t.removed(h, form)
                    c.check(c.same(h, before), "removed leaves the original")
                    rest = t.get(gone, at[:-1])
                    parent = t.get(before, at[:-1])
                    if isinstance(parent, dict):
                        c.check(c.same(rest, dict((k, v) for k, v in parent.items() if k != at[-1])), "removed from an object")
                    else:
                        c.check(c.same(rest, parent[:at[-1]] + parent[at[-1] + 1:]), "removed from a list")
                    c.check(c.same(replaced(gone, at[:-1], 0) if len(at) > 1 else 0, replaced(before, at[:-1], 0) if len(at) > 1 else 0), "the rest is kept")
                    inside = set(id(z) for z in containers(h))
                    c.check(all([id(z) not in inside for z in containers(gone)]), "the removed form is a copy")
                    mine = copy_tree(before)
                    t.remove(mine, form)
                    c.check(c.same(mine, gone), "remove in place")
                    mine = copy_tree(before)
                    t.assign(mine, form, to)
                    c.check(c.same(mine, replaced(before, at, to)), "assign in place")
                    c.check(t.get(mine, form) is to, "the value assigned is there")
            if isinstance(x, dict):
                c.check(c.same(t.assigned(h, at + ("zz",), 5), replaced(before, at, dict(list(x.items()) + [("zz", 5)]))), "a new key")
                for f in (lambda: t.get(h, at + ("zz",)), lambda: t.removed(h, at + ("zz",))):
                    try:
                        f()
                        c.fail("a missing key was found")
                    except KeyError:
                        pass
            if isinstance(x, list):
                for f in (lambda: t.get(h, at + (len(x),)), lambda: t.removed(h, at + (len(x),)), lambda: t.assigned(h, at + (len(x),), 5)):
                    try:
                        f()
                        c.fail("an index past the end was found")
                    except IndexError:
                        pass
        c.check(c.same(h, before), "nothing was changed")
    return Job("places in " + shape, fn, lambda: True)


def regex_fn(c, env):
    """Concrete texts (matching itself is Python's re); what is put together around it is judged."""
    from titus.producer import tools as t
    n = c.int("n")
    h = {"a": "model7", "b": [n, "other", "MODEL8"], "c": {"model9": "x"}}
    k = c.choice("case", ["plain", "ignore case", "substitute", "group"])
    if k == "plain":
        c.check(list(t.indexes(t.RegEx("model[0-9]"), h)) == [("a",)], "matches from the start")
        c.check(list(t.indexes(t.RegEx("[a-z]+"), h)) == [("a",), ("b", 1), ("c", "model9")], "strings only")
    elif k == "ignore case":
        c.check(list(t.indexes(t.RegEx("model[0-9]", None, "i"), h)) == [("a",), ("b", 2)], "flags")
    elif k == "substitute":
        m = t.searchFirst(t.RegEx("model([0-9])", r"m\1"), h)
        c.check(m[0] == ("a",) and m[1].original == "model7" and m[1].modified == "m7", "substitution")
        m = t.getmatch({"a": t.RegEx("model([0-9])", r"m\1"), "b": t.Any(), "c": t.Any()}, h)
        c.check(c.same(m.original, h) and c.same(m.modified, {"a": "m7", "b": [n, "other", "MODEL8"], "c": {"model9": "x"}}), "substitution inside")
    else:
        m = t.getmatch(t.Min(b=t.Start(t.Group(num=t.Any())), a=t.Group(name=t.RegEx("(model)([0-9])", r"\2\1"))), h)
        c.check(c.same(m.groups, {"num": n, "name": "7model"}), "groups hold what was substituted")
        c.check(c.same(m.original, h), "original")
        c.check(c.same(m.modified["a"], "7model"), "modified")
    c.check(c.same(h, {"a": "model7", "b": [n, "other", "MODEL8"], "c": {"model9": "x"}}), "nothing was changed")


def jobs(tier):
    out = expression_jobs(tier)
    out += [pattern_job(n, p, tier) for n, p in PATTERNS.items()]
    out += [place_job(s) for s in SHAPES if s != "leaf"]
    out.append(Job("regular expressions", regex_fn, lambda: True))
    return out
