"""C26 PrettyPFA texts (titus/prettypfa.py) against the documents their syntax denotes."""
import json

from harness.lib import *

AI = {"type": "array", "items": "int"}
MI = {"type": "map", "values": "int"}
D = "double"


def arr(t):
    return {"type": "array", "items": t}


def fcn(params, ret, do):
    return {"params": [{n: t} for n, t in params], "ret": ret, "do": do}


def rec(name, fields):
    return {"type": "record", "name": name, "fields": [{"name": n, "type": t} for n, t in fields]}


def s(x):
    return {"string": x}


# ---------------------------------------------------------------- operators
# loosest first; the operators of one level group as said, and n means that they do not chain
LEVELS = [("l", ["||"]), ("l", ["^^"]), ("l", ["&&"]), ("p", ["!"]), ("n", ["==", "!=", "<", "<=", ">", ">="]), ("l", ["|"]), ("l", ["^"]), ("l", ["&"]), ("l", ["+", "-"]),
          ("l", ["*", "/", "idiv", "%", "%%"]), ("p", ["u-", "~"]), ("l", ["**"])]
LEVEL = dict((op, (i, kind)) for i, (kind, ops) in enumerate(LEVELS) for op in ops)
BINARY = [op for kind, ops in LEVELS if kind != "p" for op in ops]
NAME = {"idiv": "//"}


class Refused(Exception):
    pass


def tree(items):
    """Operator-precedence parsing of a list of operands and operator names, independent of the grammar."""
    pos = [0]

    def peek():
        return items[pos[0]] if pos[0] < len(items) else None

    def operand():
        x = peek()
        pos[0] += 1
        if isinstance(x, tuple):
            # a prefix operator takes what follows as far as it binds tighter
            op = x[0]
            return {NAME.get(op, op): [climb(LEVEL[op][0])]}
        return x

    def climb(least):
        left = operand()
        chained = None
        while peek() is not None:
            op = peek()
            level, kind = LEVEL[op]
            if level < least:
                break
            if kind == "n" and chained == level:
                raise Refused()
            pos[0] += 1
            left = {NAME.get(op, op): [left, climb(level + 1)]}
            if kind == "n":
                chained = level
        return left
    return climb(0)


def type_of(t, env):
    """int, bool, double or None if ill-typed"""
    if isinstance(t, dict):
        (op, args), = t.items()
        if op == "attr":
            return type_of(t["attr"], env)
        ts = [type_of(a, env) for a in args]
        if op in ("&&", "||", "^^", "!"):
            return "boolean" if all(x == "boolean" for x in ts) else None
        if op in ("==", "!="):
            return "boolean" if ts[0] == ts[1] and ts[0] is not None else None
        if any(x not in ("int", D) for x in ts):
            return None
        if op in ("<", "<=", ">", ">="):
            return "boolean"
        if op in ("&", "|", "^", "~"):
            return "int" if all(x == "int" for x in ts) else None
        if op in ("//",):
            return "int" if all(x == "int" for x in ts) else None
        if op == "/":
            return D
        if op == "**" and D in ts:
            return None
        return D if D in ts else "int"
    return env.get(t, "int") if isinstance(t, str) else "int"


def text_of(items):
    return " ".join({"u-": "-"}.get(x[0], x[0]) if isinstance(x, tuple) else str(x) for x in items)


def operands(ops, env):
    """the operand positions of a chain of operators, filled with variables of the fitting type"""
    n = len(ops) + 1
    ints, bools = [v for v in sorted(env) if env[v] == "int"], [v for v in sorted(env) if env[v] == "boolean"]
    out = []
    for k in range(n):
        around = [ops[j] for j in (k - 1, k) if 0 <= j < len(ops)]
        tight = max(around, key=lambda op: LEVEL[op][0])
        if k > 0 and ops[k - 1] == "**":
            out.append(2)
        elif tight in ("&&", "||", "^^"):
            out.append(bools[k % len(bools)])
        else:
            out.append(ints[k % len(ints)])
    return out


def flat(ops, xs):
    out = [xs[0]]
    for op, x in zip(ops, xs[1:]):
        out += [op, x]
    return out


def lines(opss, prefixes=((),)):
    """(items, tree, type) for every well-typed chain"""
    env = {"a": "int", "b": "int", "d": "int", "p": "boolean", "q": "boolean", "r": "boolean"}
    out = []
    for ops in opss:
        for pre in prefixes:
            for fill in (0, 1):
                xs = operands(ops, env)
                if fill:
                    # comparisons of booleans
                    if not any(op in ("==", "!=") for op in ops):
                        continue
                    xs = [("p", "q", "r", "p")[k] if any(0 <= j < len(ops) and ops[j] in ("==", "!=", "&&", "||", "^^") for j in (k - 1, k)) else x for k, x in enumerate(xs)]
                items = flat(ops, xs)
                places = [k for k in range(len(items)) if k % 2 == 0]
                for at, op in pre:
                    if at < len(places):
                        k = [i for i, x in enumerate(items) if not isinstance(x, tuple) and not (isinstance(x, str) and x in LEVEL)][at]
                        items = items[:k] + [(op,)] + items[k:]
                try:
                    t = tree(items)
                except Refused:
                    continue
                if type_of(t, env) is not None:
                    out.append((items, t, type_of(t, env)))
    return out


HEAD = "input: record(a: int, b: int, d: int, p: boolean, q: boolean, r: boolean, In)\n"
IN = rec("In", [("a", "int"), ("b", "int"), ("d", "int"), ("p", "boolean"), ("q", "boolean"), ("r", "boolean")])
LETS = "var a = input.a, b = input.b, d = input.d, p = input.p, q = input.q, r = input.r;\n"
LET = {"let": dict((v, "input." + v) for v in "abdpqr")}


DIVISORS = [(2, -3), (-4, 3)]


def operator_job(name, make, divisors=None, **kw):
    def setup():
        from titus import prettypfa
        groups = {}
        for items, t, ty in make():
            groups.setdefault(ty, []).append((text_of(items), t))
        out = []
        for ty in sorted(groups):
            lst = groups[ty]
            for k in range(0, len(lst), 16):
                part = lst[k:k + 16]
                text = HEAD + "output: array(" + ty + ")\naction:\n  " + LETS + "  new(array(" + ty + "), " + ", ".join(x for x, _ in part) + ")\n"
                doc = {"input": IN, "output": arr(ty), "action": [LET, {"type": arr(ty), "new": [t for _, t in part]}]}
                out.append((Eng(prettypfa.engine(text)[0]), make_engine(doc), [x for x, _ in part]))
        return out

    def fn(c, env):
        mine, ref, texts = env[c.choice("part", list(range(len(env))))]
        b, d = (c.int("b", -6, 7), c.int("d", -6, 7)) if divisors is None else c.choice("b and d", divisors)
        v = {"a": c.int("a", -6, 7), "b": b, "d": d, "p": c.bool("p"), "q": c.bool("q"), "r": c.bool("r")}
        for x in "abd":
            if divisors is None or x == "a":
                c.assume(v[x] != 0)
        x, y = act(mine, v), act(ref, v)
        c.check(x[0] == y[0], "outcome")
        if x[0] == "ok" and y[0] == "ok":
            for k, t in enumerate(texts):
                c.check(c.same(x[1][k], y[1][k]), t)
    return Job(name, fn, setup, **kw)


def chains_refused(c, env):
    """comparisons do not chain"""
    from titus import prettypfa
    from titus.errors import PrettyPfaException
    cmp = LEVELS[4][1]
    a, b = c.choice("first", cmp), c.choice("second", cmp)
    for text in ("x %s y %s z" % (a, b), "x + 1 %s y | 2 %s !z" % (a, b)):
        try:
            prettypfa.ppfa(text)
            refused = False
        except PrettyPfaException:
            refused = True
        c.check(refused, "chained comparison accepted")


# ---------------------------------------------------------------- texts and documents
def action(text, js, o="int", i="int", it=None, ot=None, **kw):
    """an action with input and output types"""
    return ("input: %s\noutput: %s\n" % (it or i, ot or o) + kw.pop("head", "") + "action:\n  " + text + "\n" + kw.pop("tail", ""), dict({"input": i, "output": o, "action": js}, **kw))


P, UP = rec("P", [("x", "int"), ("s", "string")]), ["null", "int", "string"]
PT = "record(x: int, s: string, P)"

STATEMENTS = {
    "let and set": action("var x = input, y = 3; x = x + y; y = y * 2; {var z = x; y = y + z}; x + y",
                          [{"let": {"x": "input", "y": 3}}, {"set": {"x": {"+": ["x", "y"]}}}, {"set": {"y": {"*": ["y", 2]}}}, {"do": [{"let": {"z": "x"}}, {"set": {"y": {"+": ["y", "z"]}}}]}, {"+": ["x", "y"]}]),
    "set several": action("var x = input, y = 3; x = y, y = x; x - y", [{"let": {"x": "input", "y": 3}}, {"set": {"x": "y", "y": "x"}}, {"-": ["x", "y"]}]),
    "if": action("var y = 0; if (input > 3) y = 2; y", [{"let": {"y": 0}}, {"if": {">": ["input", 3]}, "then": {"set": {"y": 2}}}, "y"]),
    "if else": action("if (input > 3) input - 1 else 5 + 2", {"if": {">": ["input", 3]}, "then": {"-": ["input", 1]}, "else": {"+": [5, 2]}}),
    "if block": action("if (input > 3) {var z = input; z - 1} else {var z = 5; z + 2}", {"if": {">": ["input", 3]}, "then": [{"let": {"z": "input"}}, {"-": ["z", 1]}], "else": [{"let": {"z": 5}}, {"+": ["z", 2]}]}),
    "else if": action("if (input > 3) 1 else if (input < 0) 2 else 3", {"cond": [{"if": {">": ["input", 3]}, "then": 1}, {"if": {"<": ["input", 0]}, "then": 2}], "else": 3}),
    "else if chain": action("if (input > 3) 1 else if (input < 0) {2} else if (input == 0) 4 else {var x = input; x}",
                            {"cond": [{"if": {">": ["input", 3]}, "then": 1}, {"if": {"<": ["input", 0]}, "then": 2}, {"if": {"==": ["input", 0]}, "then": 4}], "else": [{"let": {"x": "input"}}, "x"]}),
    "else if without else": action("var y = 0; if (input > 3) {y = 1} else if (input < 0) y = 2; y", [{"let": {"y": 0}}, {"cond": [{"if": {">": ["input", 3]}, "then": {"set": {"y": 1}}}, {"if": {"<": ["input", 0]}, "then": {"set": {"y": 2}}}]}, "y"]),
    "dangling else": action("var y = 0; if (input > 3) if (input > 5) y = 1 else y = 2; y",
                            [{"let": {"y": 0}}, {"if": {">": ["input", 3]}, "then": {"if": {">": ["input", 5]}, "then": {"set": {"y": 1}}, "else": {"set": {"y": 2}}}}, "y"]),
    "if in operand": action("1 + if (input > 3) 2 else 3 * 4", {"+": [1, {"if": {">": ["input", 3]}, "then": 2, "else": {"*": [3, 4]}}]}),
    "grouped if": action("(if (input > 3) 2 else 3) * 4", {"*": [{"if": {">": ["input", 3]}, "then": 2, "else": 3}, 4]}),
    "while": action("var n = input % 3, t = 0; while (n > 0) {t = t + n; n = n - 1}; t", [{"let": {"n": {"%": ["input", 3]}, "t": 0}}, {"while": {">": ["n", 0]}, "do": [{"set": {"t": {"+": ["t", "n"]}}}, {"set": {"n": {"-": ["n", 1]}}}]}, "t"]),
    "while one": action("var n = input % 3; while (n > 0) n = n - 1; n", [{"let": {"n": {"%": ["input", 3]}}}, {"while": {">": ["n", 0]}, "do": {"set": {"n": {"-": ["n", 1]}}}}, "n"]),
    "do until": action("var n = input % 3; do {n = n - 1} until (n < 0); n", [{"let": {"n": {"%": ["input", 3]}}}, {"do": [{"set": {"n": {"-": ["n", 1]}}}], "until": {"<": ["n", 0]}}, "n"]),
    "do until one": action("var n = input % 3; do n = n - 1 until (n < 0); n", [{"let": {"n": {"%": ["input", 3]}}}, {"do": {"set": {"n": {"-": ["n", 1]}}}, "until": {"<": ["n", 0]}}, "n"]),
    "for": action("var t = 0; for (i = 0; i < input % 3; i = i + 1) t = t + i + 1; t",
                  [{"let": {"t": 0}}, {"for": {"i": 0}, "while": {"<": ["i", {"%": ["input", 3]}]}, "step": {"i": {"+": ["i", 1]}}, "do": {"set": {"t": {"+": [{"+": ["t", "i"]}, 1]}}}}, "t"]),
    "for two": action("var t = 0; for (i = 0, j = input; i < 3; i = i + 1, j = i) {t = t + j}; t",
                      [{"let": {"t": 0}}, {"for": {"i": 0, "j": "input"}, "while": {"<": ["i", 3]}, "step": {"i": {"+": ["i", 1]}, "j": "i"}, "do": {"set": {"t": {"+": ["t", "j"]}}}}, "t"]),
    "foreach": action("var t = 0; foreach (x: new(array(int), input, 2), seq: true) t = t - x; t", [{"let": {"t": 0}}, {"foreach": "x", "in": {"type": AI, "new": ["input", 2]}, "do": {"set": {"t": {"-": ["t", "x"]}}}, "seq": True}, "t"]),
    "foreach not seq": action("foreach (x: new(array(int), input, 2), seq: false) {log(x)}; foreach (x: new(array(int), input)) log(x, 3); input",
                              [{"foreach": "x", "in": {"type": AI, "new": ["input", 2]}, "do": {"log": ["x"]}, "seq": False}, {"foreach": "x", "in": {"type": AI, "new": ["input"]}, "do": {"log": ["x", 3]}}, "input"]),
    "foreach keys": action("var t = 0; foreach (k, v: new(map(int), a: input, b: 4)) {t = t + v; log(k)}; t",
                           [{"let": {"t": 0}}, {"forkey": "k", "forval": "v", "in": {"type": MI, "new": {"a": "input", "b": 4}}, "do": [{"set": {"t": {"+": ["t", "v"]}}}, {"log": ["k"]}]}, "t"]),
    "foreach quoted": action("var t = 0; foreach ('x': new(array(int), input, 2), seq: true) t = t - x; foreach (\"k\", 'v': new(map(int), \"a b\": input)) t = t + v; t",
                             [{"let": {"t": 0}}, {"foreach": "x", "in": {"type": AI, "new": ["input", 2]}, "do": {"set": {"t": {"-": ["t", "x"]}}}, "seq": True},
                              {"forkey": "k", "forval": "v", "in": {"type": MI, "new": {"a b": "input"}}, "do": {"set": {"t": {"+": ["t", "v"]}}}}, "t"]),
    "cast": action("cast (input) {as(x: int) x + 1 as(s: string) {var z = s.len(s); z} as(n: null) -1}",
                   {"cast": "input", "cases": [{"as": "int", "named": "x", "do": {"+": ["x", 1]}}, {"as": "string", "named": "s", "do": [{"let": {"z": {"s.len": "s"}}}, "z"]}, {"as": "null", "named": "n", "do": -1}]},
                   i=UP, it="union(null, int, string)"),
    "cast partial": action("cast (input, partial: true) {as(x: int) log(x)}; cast (input, partial: false) {as(x: int) x as(y: string) 2 as(z: null) 3}",
                           [{"cast": "input", "cases": [{"as": "int", "named": "x", "do": {"log": ["x"]}}], "partial": True},
                            {"cast": "input", "cases": [{"as": "int", "named": "x", "do": "x"}, {"as": "string", "named": "y", "do": 2}, {"as": "null", "named": "z", "do": 3}]}], i=UP, it="union(null, int, string)"),
    "ifnotnull": action("ifnotnull (x: input, y: input) x + y else -1", {"ifnotnull": {"x": "input", "y": "input"}, "then": {"+": ["x", "y"]}, "else": -1}, i=["int", "null"], it="union(int, null)"),
    "ifnotnull block": action("var t = 1; ifnotnull (x: input) {t = x; t = t * 2}; ifnotnull (x: input) {t = t + 1} else {t = 5}; t",
                              [{"let": {"t": 1}}, {"ifnotnull": {"x": "input"}, "then": [{"set": {"t": "x"}}, {"set": {"t": {"*": ["t", 2]}}}]},
                               {"ifnotnull": {"x": "input"}, "then": {"set": {"t": {"+": ["t", 1]}}}, "else": {"set": {"t": 5}}}, "t"], i=["int", "null"], it="union(int, null)"),
    "pack and unpack": action("unpack (pack(int: input, byte: 3), a: int, b: 'byte') a - b else 5", {"unpack": {"pack": [{"int": "input"}, {"byte": 3}]}, "format": [{"a": "int"}, {"b": "byte"}], "then": {"-": ["a", "b"]}, "else": 5}),
    "unpack blocks": action("unpack (pack(int: input), a: int, b: int) {a} else {var x = 4; x}", {"unpack": {"pack": [{"int": "input"}]}, "format": [{"a": "int"}, {"b": "int"}], "then": "a", "else": [{"let": {"x": 4}}, "x"]}),
    "unpack no else": action("var x = 0; unpack (pack(int: input), \"a\": int) x = a; x", [{"let": {"x": 0}}, {"unpack": {"pack": [{"int": "input"}]}, "format": [{"a": "int"}], "then": {"set": {"x": "a"}}}, "x"]),
    "error": action("if (input > 3) error(\"too big\", code: -8); if (input < 0) error(small); input",
                    [{"if": {">": ["input", 3]}, "then": {"error": "too big", "code": -8}}, {"if": {"<": ["input", 0]}, "then": {"error": "small"}}, "input"]),
    "try": action("ifnotnull (x: try {if (input > 3) error(\"big\"); input idiv (input - 1)}) x else -1",
                  {"ifnotnull": {"x": {"try": [{"if": {">": ["input", 3]}, "then": {"error": "big"}}, {"//": ["input", {"-": ["input", 1]}]}]}}, "then": "x", "else": -1}),
    "try filtered": action("ifnotnull (x: try (big) {if (input > 3) error(\"big\"); if (input < 0) error(\"neg\", code: -2); input}, y: try (\"neg\", 18000) input + 1) x + y else -1",
                           {"ifnotnull": {"x": {"try": [{"if": {">": ["input", 3]}, "then": {"error": "big"}}, {"if": {"<": ["input", 0]}, "then": {"error": "neg", "code": -2}}, "input"], "filter": ["big"]},
                                          "y": {"try": {"+": ["input", 1]}, "filter": ["neg", 18000]}}, "then": {"+": ["x", "y"]}, "else": -1}),
    "try by code": action("ifnotnull (x: try (-2) {if (input < 0) error(\"neg\", code: -2) else error(\"pos\", code: -3); input}) x else -1",
                          {"ifnotnull": {"x": {"try": [{"if": {"<": ["input", 0]}, "then": {"error": "neg", "code": -2}, "else": {"error": "pos", "code": -3}}, "input"], "filter": [-2]}}, "then": "x", "else": -1}),
    "try on a group": action("ifnotnull (x: try (input) + 1) x else 7", {"ifnotnull": {"x": {"try": {"+": ["input", 1]}}}, "then": "x", "else": 7}),
    "log": action("log(input, \"x\", 'y'); log(input, namespace: here); log(\"z\", namespace: \"there\"); doc(\"words\"); input",
                  [{"log": ["input", s("x"), s("y")]}, {"log": ["input"], "namespace": "here"}, {"log": [s("z")], "namespace": "there"}, {"doc": "words"}, "input"]),
    "path": action("input.p.x + input['p', \"x\"] + input.p['x'] + input[\"q\"][0] + input.q[1]",
                   {"+": [{"+": [{"+": [{"+": ["input.p.x", {"attr": "input", "path": [s("p"), s("x")]}]}, {"attr": "input", "path": [s("p"), s("x")]}]}, {"attr": {"attr": "input", "path": [s("q")]}, "path": [0]}]}, {"attr": "input", "path": [s("q"), 1]}]},
                   i=rec("R", [("p", P), ("q", AI)]), it="record(p: %s, q: array(int), R)" % PT),
    "path assignment": action("var r = input; r = (r.p.x = 3); r = (r['q', 0] = r.p.x + 1); r = (r.q[1] to fcn(o: int -> int) o + 1); r = update(r, q: new(array(int), r.q[0], r.q[1], 9)); r.q[0] + r.q[1] + r.q[2] + r.p.x",
                              [{"let": {"r": "input"}}, {"set": {"r": {"attr": "r", "path": [s("p"), s("x")], "to": 3}}}, {"set": {"r": {"attr": "r", "path": [s("q"), 0], "to": {"+": ["r.p.x", 1]}}}},
                               {"set": {"r": {"attr": "r", "path": [s("q"), 1], "to": fcn([("o", "int")], "int", {"+": ["o", 1]})}}},
                               {"set": {"r": {"attr": "r", "path": [s("q")], "to": {"type": AI, "new": [{"attr": "r", "path": [s("q"), 0]}, {"attr": "r", "path": [s("q"), 1]}, 9]}}}},
                               {"+": [{"+": [{"+": [{"attr": "r", "path": [s("q"), 0]}, {"attr": "r", "path": [s("q"), 1]}]}, {"attr": "r", "path": [s("q"), 2]}]}, "r.p.x"]}],
                              i=rec("R", [("p", P), ("q", AI)]), it="record(p: %s, q: array(int), R)" % PT),
    "extraction from calls": action("1 + a.append(new(array(int), input, 4), 5)[1] * -a.reverse(new(array(int), input, 4))[1]",
                                    {"+": [1, {"*": [{"attr": {"a.append": [{"type": AI, "new": ["input", 4]}, 5]}, "path": [1]}, {"u-": [{"attr": {"a.reverse": [{"type": AI, "new": ["input", 4]}]}, "path": [1]}]}]}]}),
    "extraction twice": action("var f = new(array(array(int)), new(array(int), input), new(array(int), 7)); 2 * f[1][0] + (if (input > 3) f else f)[0, 0] - new(array(int), input)[0]",
                     [{"let": {"f": {"type": arr(AI), "new": [{"type": AI, "new": ["input"]}, {"type": AI, "new": [7]}]}}},
                      {"-": [{"+": [{"*": [2, {"attr": {"attr": "f", "path": [1]}, "path": [0]}]}, {"attr": {"if": {">": ["input", 3]}, "then": "f", "else": "f"}, "path": [0, 0]}]}, {"attr": {"type": AI, "new": ["input"]}, "path": [0]}]}]),
    "extraction and not": action("if (!a.map(new(array(int), input), fcn(x: int -> boolean) x > 2)[0]) 1 else 2",
                                 {"if": {"!": [{"attr": {"a.map": [{"type": AI, "new": ["input"]}, fcn([("x", "int")], "boolean", {">": ["x", 2]})]}, "path": [0]}]}, "then": 1, "else": 2}),
    "general assignment": action("(a.append(new(array(int), input), 5)[0] = 3)[0] + (a.append(new(array(int), input), 5)[0] = 3)[1]",
                                 {"+": [{"attr": {"attr": {"a.append": [{"type": AI, "new": ["input"]}, 5]}, "path": [0], "to": 3}, "path": [0]}, {"attr": {"attr": {"a.append": [{"type": AI, "new": ["input"]}, 5]}, "path": [0], "to": 3}, "path": [1]}]}),
    "function literals": action("a.sum(a.map(new(array(int), input, 3), fcn(x: int -> int) {var y = x % 5; y * 2})) + a.reduce(new(array(int), 3, input), fcn(x: int, y: int -> int) x - y)",
                                {"+": [{"a.sum": {"a.map": [{"type": AI, "new": ["input", 3]}, fcn([("x", "int")], "int", [{"let": {"y": {"%": ["x", 5]}}}, {"*": ["y", 2]}])]}},
                                       {"a.reduce": [{"type": AI, "new": [3, "input"]}, fcn([("x", "int"), ("y", "int")], "int", {"-": ["x", "y"]})]}]}),
    "library references": action("a.reduce(new(array(string), 'a', \"bc\"), s.concat)", {"a.reduce": [{"type": arr("string"), "new": [s("a"), s("bc")]}, {"fcn": "s.concat"}]}, o="string"),
    "user functions": action("u.f(input, 2) + a.sum(a.map(new(array(int), input), u.g)) + a.sum(a.map(new(array(int), 4), u.f(y: input)))",
                             {"+": [{"+": [{"u.f": ["input", 2]}, {"a.sum": {"a.map": [{"type": AI, "new": ["input"]}, {"fcn": "u.g"}]}}]}, {"a.sum": {"a.map": [{"type": AI, "new": [4]}, {"fcn": "u.f", "fill": {"y": "input"}}]}}]},
                             tail="fcns:\n  f = fcn(x: int, y: int -> int) x - y;\n  g = fcn(x: int -> int) {var z = u.f(x, 1); z % 7};\n",
                             fcns={"f": fcn([("x", "int"), ("y", "int")], "int", {"-": ["x", "y"]}), "g": fcn([("x", "int")], "int", [{"let": {"z": {"u.f": ["x", 1]}}}, {"%": ["z", 7]}])}),
    "no parameters": action("u.f() + m.special.nChooseK(5, 2)", {"+": [{"u.f": []}, {"m.special.nChooseK": [5, 2]}]}, tail="fcns: f = fcn(-> int) 3\n", fcns={"f": fcn([], "int", 3)}),
    "apply": action("apply(input, 3) + apply(input, 4)", {"+": [{"call": "input", "args": [3]}, {"call": "input", "args": [4]}]}, i={"type": "enum", "name": "F", "symbols": ["f", "g"]}, it="enum([f, g], F)",
                    tail="fcns:\n  f = fcn(x: int -> int) x * 2;\n  g = fcn(x: int -> int) x - 1\n", fcns={"f": fcn([("x", "int")], "int", {"*": ["x", 2]}), "g": fcn([("x", "int")], "int", {"-": ["x", 1]})}),
    "upcast": action("upcast(double, input) / 2", {"/": [{"upcast": "input", "as": D}, 2]}, o=D),
}

N = {"n": {"type": "int", "init": 3}}
SECTIONS = {
    "cells": ("input: int\noutput: int\ncells:\n  n(int) = 3;\n  m(type: map(int), shared: true) = {a: 4, \"b c\": -5};\n  l(array(double)) = [1, 2.5, -3];\n  e(array(int), rollback: true, shared: false) = []\n"
              "action:\n  n = n + input;\n  m['b c'] = n;\n  n to fcn(o: int -> int) o + m.a;\n  m.a = 2 * m['b c'];\n  m[\"a\"] to fcn(o: int -> int) {o - 1};\n  e = a.append(e, n);\n  log(l[0], l[1], l[2], e, m);\n  n\n",
              {"input": "int", "output": "int", "cells": {"n": {"type": "int", "init": 3}, "m": {"type": MI, "init": {"a": 4, "b c": -5}, "shared": True}, "l": {"type": arr(D), "init": [1, 2.5, -3]}, "e": {"type": AI, "init": [], "rollback": True}},
               "action": [{"cell": "n", "to": {"+": [{"cell": "n"}, "input"]}}, {"cell": "m", "path": [s("b c")], "to": {"cell": "n"}}, {"cell": "n", "to": fcn([("o", "int")], "int", {"+": ["o", {"cell": "m", "path": [s("a")]}]})},
                          {"cell": "m", "path": [s("a")], "to": {"*": [2, {"cell": "m", "path": [s("b c")]}]}}, {"cell": "m", "path": [s("a")], "to": fcn([("o", "int")], "int", {"-": ["o", 1]})}, {"cell": "e", "to": {"a.append": [{"cell": "e"}, {"cell": "n"}]}},
                          {"log": [{"cell": "l", "path": [0]}, {"cell": "l", "path": [1]}, {"cell": "l", "path": [2]}, {"cell": "e"}, {"cell": "m"}]}, {"cell": "n"}]}),
    "cells of other types": ("types:\n  record(T, v: int, n: union(null, T));\n  Num = array(int);\n  enum([one, two], E)\ninput: int\noutput: T\ncells:\n  t(T) = {v: 1, n: {T: {v: 2, n: null}}};\n  k(Num) = [1, 2];\n  c(E) = two;\n  w(string) = \"hey\";\n"
                             "  v(string) = 'you';\n  b(boolean) = true;\n  u(union(int, null)) = null;\n  q(double) = -2.5;\n  z(int) = -7\naction:\n  k[0] = input;\n  if (c == E@two) log(w, v, b, q, z);\n  u = input;\n  t.v = k[0] + ifnotnull (x: u) x else 0;\n  t\n",
                             {"input": "int", "output": "T", "cells": {"t": {"type": rec("T", [("v", "int"), ("n", ["null", "T"])]), "init": {"v": 1, "n": {"T": {"v": 2, "n": None}}}}, "k": {"type": AI, "init": [1, 2]},
                                                                       "c": {"type": {"type": "enum", "name": "E", "symbols": ["one", "two"]}, "init": "two"}, "w": {"type": "string", "init": "hey"}, "v": {"type": "string", "init": "you"},
                                                                       "b": {"type": "boolean", "init": True}, "u": {"type": ["int", "null"], "init": None}, "q": {"type": D, "init": -2.5}, "z": {"type": "int", "init": -7}},
                              "action": [{"cell": "k", "path": [0], "to": "input"}, {"if": {"==": [{"cell": "c"}, {"type": "E", "value": "two"}]}, "then": {"log": [{"cell": "w"}, {"cell": "v"}, {"cell": "b"}, {"cell": "q"}, {"cell": "z"}]}},
                                         {"cell": "u", "to": "input"}, {"cell": "t", "path": [s("v")], "to": {"+": [{"cell": "k", "path": [0]}, {"ifnotnull": {"x": {"cell": "u"}}, "then": "x", "else": 0}]}}, {"cell": "t"}]}),
    "pools": ("input: int\noutput: int\npools:\n  p(int) = {};\n  q(type: array(int), shared: true) = {a: [1, 2], 'x y': []}\naction:\n  p['k'] = input;\n  p.k to fcn(o: int -> int) o + 1 init 100;\n  p[\"j\"] to u.f init input;\n  q['a'] = new(array(int), p.j, 3);\n  q.a[0] + p['k']\n"
              "fcns:\n  f = fcn(x: int -> int) x % 9\n",
              {"input": "int", "output": "int", "pools": {"p": {"type": "int", "init": {}}, "q": {"type": AI, "init": {"a": [1, 2], "x y": []}, "shared": True}}, "fcns": {"f": fcn([("x", "int")], "int", {"%": ["x", 9]})},
               "action": [{"pool": "p", "path": [s("k")], "to": "input", "init": "input"}, {"pool": "p", "path": [s("k")], "to": fcn([("o", "int")], "int", {"+": ["o", 1]}), "init": 100}, {"pool": "p", "path": [s("j")], "to": {"fcn": "u.f"}, "init": "input"},
                          {"pool": "q", "path": [s("a")], "to": {"type": AI, "new": [{"pool": "p", "path": [s("j")]}, 3]}, "init": {"type": AI, "new": [{"pool": "p", "path": [s("j")]}, 3]}},
                          {"+": [{"pool": "q", "path": [s("a"), 0]}, {"pool": "p", "path": [s("k")]}]}]}),
    "emit": ("input: int\noutput: int\nmethod: emit\naction: {emit(input); if (input > 3) {emit(input - 1); u.f(input)}; a.map(new(array(int), 1, 2), emit)}\nfcns:\n  f = fcn(x: int -> null) emit(x % 7)\n",
             {"input": "int", "output": "int", "method": "emit", "action": [{"emit": "input"}, {"if": {">": ["input", 3]}, "then": [{"emit": {"-": ["input", 1]}}, {"u.f": "input"}]}, {"a.map": [{"type": AI, "new": [1, 2]}, {"fcn": "emit"}]}],
              "fcns": {"f": fcn([("x", "int")], "null", {"emit": {"%": ["x", 7]}})}}),
    "fold": ("input: int\noutput: int\nmethod: fold\nzero: -4\naction: tally * 2 + input % 5\nmerge: {var x = tallyOne; x - tallyTwo}\n",
             {"input": "int", "output": "int", "method": "fold", "zero": -4, "action": {"+": [{"*": ["tally", 2]}, {"%": ["input", 5]}]}, "merge": [{"let": {"x": "tallyOne"}}, {"-": ["x", "tallyTwo"]}]}),
    "fold of a map": ("input: int\noutput: map(int)\nmethod: \"fold\"\nzero: {a: 3}\naction: map.add(tally, 'b', input)\nmerge: {map.add(tallyOne, 'b', tallyTwo.a)}\n",
                      {"input": "int", "output": MI, "method": "fold", "zero": {"a": 3}, "action": {"map.add": ["tally", s("b"), "input"]}, "merge": {"map.add": ["tallyOne", s("b"), "tallyTwo.a"]}}),
    "begin and end": ("input: int\noutput: int\ncells: n(int) = 3\nbegin:\n  var x = 4;\n  n = x * n; log(n)\nend: {var x = n; log(x, name)}\naction: {var x = input; n = n + 1; n - x}\nname: Foo\n",
                      {"input": "int", "output": "int", "name": "Foo", "cells": N, "begin": [{"let": {"x": 4}}, {"cell": "n", "to": {"*": ["x", {"cell": "n"}]}}, {"log": [{"cell": "n"}]}], "end": [{"let": {"x": {"cell": "n"}}}, {"log": ["x", "name"]}],
                       "action": [{"let": {"x": "input"}}, {"cell": "n", "to": {"+": [{"cell": "n"}, 1]}}, {"-": [{"cell": "n"}, "x"]}]}),
    "other sections": ("name: Some\nversion: 12\ndoc: \"words words\"\nrandseed: 12345\nmetadata: {a: \"b c\", d: 'e'}\noptions: {timeout: 100000}\ninput: int\noutput: int\naction: input % 100 + version + s.len(metadata.a) + rand.int(0, 1)\n",
                       {"name": "Some", "version": 12, "doc": "words words", "randseed": 12345, "metadata": {"a": "b c", "d": "e"}, "options": {"timeout": 100000}, "input": "int", "output": "int",
                        "action": {"+": [{"+": [{"+": [{"%": ["input", 100]}, "version"]}, {"s.len": {"attr": "metadata", "path": [s("a")]}}]}, {"rand.int": [0, 1]}]}}),
    "comments and spacing": ("// a comment\n\n   \n\ninput: int // : another\n\n\n//output: string\noutput:\n\n     int\naction: // start\n\n    var x = \"//no comment\";   // one\n    var y = '// none';;\n\n  s.len(x) + s.len(y) * // end\n   input % 5;\n//\n",
                             {"input": "int", "output": "int", "action": [{"let": {"x": s("//no comment")}}, {"let": {"y": s("// none")}}, {"+": [{"s.len": "x"}, {"%": [{"*": [{"s.len": "y"}, "input"]}, 5]}]}]}),
    "carriage returns": ("input: int\r\noutput: int\r\n\r\nname: Foo\r\naction:\r\n  var x = input;\r\n  // words\r\n  x - 1\r\n", {"name": "Foo", "input": "int", "output": "int", "action": [{"let": {"x": "input"}}, {"-": ["x", 1]}]}),
    "old carriage returns": ("input: int\routput: int\rname: Foo\raction:\r  var x = input;\r  x - 1\r", {"name": "Foo", "input": "int", "output": "int", "action": [{"let": {"x": "input"}}, {"-": ["x", 1]}]}),
    "tabs and one line": ("input:int\noutput:int\naction:\tvar x=input;x=x-1;if(x>2)x=-x;x*-1+(-2)-3", {"input": "int", "output": "int", "action": [
        {"let": {"x": "input"}}, {"set": {"x": {"-": ["x", 1]}}}, {"if": {">": ["x", 2]}, "then": {"set": {"x": {"u-": ["x"]}}}}, {"-": [{"+": [{"*": ["x", -1]}, -2]}, 3]}]}),
    "types": ("types:\n  Point = record(x: int, y: double, Pt);\n  record(Line, a: Pt, b: Pt, label: union(string, null));\n  Points = array(Pt);\n  Color = enum([red, blue], Hue);\n  fixed(3, Fx);\n  com = map(array(int));\n"
              "input: Line\noutput: Points\naction:\n  var m = json(com, {a: [1, 2]});\n  var c = if (input.a.x > 3) Hue@red else Hue@blue;\n  if (c == Hue@red) log(m.a, c);\n  new(Points, input.b, new(Pt, x: input.a.x, y: 2.5), new(Point, x: 1, y: input.b.y))\n",
              {"input": rec("Line", [("a", rec("Pt", [("x", "int"), ("y", D)])), ("b", "Pt"), ("label", ["string", "null"])]), "output": arr("Pt"), "action": [
                  {"let": {"m": {"type": {"type": "map", "values": AI}, "value": {"a": [1, 2]}}}},
                  {"let": {"c": {"if": {">": ["input.a.x", 3]}, "then": {"type": {"type": "enum", "name": "Hue", "symbols": ["red", "blue"]}, "value": "red"}, "else": {"type": "Hue", "value": "blue"}}}},
                  {"if": {"==": ["c", {"type": "Hue", "value": "red"}]}, "then": {"log": ["m.a", "c"]}},
                  {"type": arr("Pt"), "new": ["input.b", {"type": "Pt", "new": {"x": "input.a.x", "y": 2.5}}, {"type": "Pt", "new": {"x": 1, "y": "input.b.y"}}]}]}),
    "aliases": ("types: Color = enum([red, blue]); Rec = record(c: int, d: string); Fix = fixed(2)\ninput: int\noutput: string\naction: {var r = new(Rec, c: input, d: 'x'); if (r.c > 3) r = new(Rec, c: 1, d: 'y'); s.concat(r.d, if (Color@blue == Color@red) 'a' else 'b')}\n",
                {"input": "int", "output": "string", "action": [
                    {"let": {"r": {"type": rec("Rec0", [("c", "int"), ("d", "string")]), "new": {"c": "input", "d": s("x")}}}}, {"if": {">": ["r.c", 3]}, "then": {"set": {"r": {"type": "Rec0", "new": {"c": 1, "d": s("y")}}}}},
                    {"s.concat": ["r.d", {"if": {"==": [{"type": {"type": "enum", "name": "C0", "symbols": ["red", "blue"]}, "value": "blue"}, {"type": "C0", "value": "red"}]}, "then": s("a"), "else": s("b")}]}]}),
    "namespaces": ("types: record(com.a.P, x: int); enum([u, v], com.b.E); fixed(2, com.c.F)\ninput: com.a.P\noutput: com.b.E\naction: if (input.x > 3) json(com.b.E, \"v\") else json(com.b.E, \"u\")\n",
                   {"input": {"type": "record", "name": "P", "namespace": "com.a", "fields": [{"name": "x", "type": "int"}]}, "output": {"type": "enum", "name": "E", "namespace": "com.b", "symbols": ["u", "v"]},
                    "action": {"if": {">": ["input.x", 3]}, "then": {"type": "com.b.E", "value": "v"}, "else": {"type": "com.b.E", "value": "u"}}}),
    "names alike": ("input: int\noutput: int\ncells: x(int) = 4\npools: y(int) = {a: 3}\naction: {var z = x; x = z + input; var w = y.a; y['a'] = w + x; u.x(w, x)}\nfcns: x = fcn(a: int, b: int -> int) a * 2 - b; y = fcn(a: int -> int) a\n",
                    {"input": "int", "output": "int", "cells": {"x": {"type": "int", "init": 4}}, "pools": {"y": {"type": "int", "init": {"a": 3}}},
                     "action": [{"let": {"z": {"cell": "x"}}}, {"cell": "x", "to": {"+": ["z", "input"]}}, {"let": {"w": {"pool": "y", "path": [s("a")]}}},
                                {"pool": "y", "path": [s("a")], "to": {"+": ["w", {"cell": "x"}]}, "init": {"+": ["w", {"cell": "x"}]}}, {"u.x": ["w", {"cell": "x"}]}],
                     "fcns": {"x": fcn([("a", "int"), ("b", "int")], "int", {"-": [{"*": ["a", 2]}, "b"]}), "y": fcn([("a", "int")], "int", "a")}}),
}

LITERALS = [
    # (text, json, type)
    ("0", 0, "int"), ("-0", 0, "int"), ("17", 17, "int"), ("-17", -17, "int"), ("2147483647", 2147483647, "int"), ("-2147483648", -2147483648, "int"), ("2147483648", {"long": 2147483648}, "long"), ("-2147483649", {"long": -2147483649}, "long"),
    ("9223372036854775807", {"long": 9223372036854775807}, "long"), ("-9223372036854775808", {"long": -9223372036854775808}, "long"), ("long(3)", {"long": 3}, "long"), ("long(-3)", {"long": -3}, "long"), ("json(long, 5)", {"long": 5}, "long"),
    ("int(4)", {"int": 4}, "int"), ("int(\"12\")", 12, "int"), ("json(int, -4)", -4, "int"), ("1.5", 1.5, D), ("-1.5", -1.5, D), ("1.", 1.0, D), ("1e3", 1000.0, D), ("-1E-3", -0.001, D), ("2.5e+2", 250.0, D), ("0.125", 0.125, D), ("double(3)", 3.0, D),
    ("double(\"2.5\")", 2.5, D), ("float(2.5)", {"float": 2.5}, "float"), ("json(float, 2)", {"float": 2.0}, "float"), ("true", True, "boolean"), ("false", False, "boolean"), ("null", None, "null"), ("json(null, null)", None, "null"),
    ("\"abc\"", s("abc"), "string"), ("'abc'", s("abc"), "string"), ("\"\"", s(""), "string"), ("''", s(""), "string"), ("\"a\\\"b\"", s("a\"b"), "string"), ("\"a'b\"", s("a'b"), "string"), ("'a\"b'", s("a\"b"), "string"), ("'a\\nb'", s("a\\nb"), "string"),
    ("\"a\\nb\\t\\\\\"", s("a\nb\t\\"), "string"), ("\"\\u00e9\"", s("\u00e9"), "string"), ("\"\u00e9\u4e2d\"", s("\u00e9\u4e2d"), "string"), ("string(\"abc\")", s("abc"), "string"), ("string(abc)", s("abc"), "string"), ("json(string, 'x y')", s("x y"), "string"),
    ("'a\n b'", s("a\n b"), "string"), ("\"a; b, c: (d) [e] {f}\"", s("a; b, c: (d) [e] {f}"), "string"),
    ("bytes(\"aGk=\")", {"base64": "aGk="}, "bytes"), ("json(bytes, \"/+8=\")", {"base64": "/+8="}, "bytes"),
    ("json(array(int), [1, -2, 3])", {"type": AI, "value": [1, -2, 3]}, AI), ("json(array(int), [])", {"type": AI, "value": []}, AI), ("json(map(string), {a: b, 'c d': \"e\"})", {"type": {"type": "map", "values": "string"}, "value": {"a": "b", "c d": "e"}}, {"type": "map", "values": "string"}),
    ("json(map(int), {})", {"type": MI, "value": {}}, MI), ("json(union(int, null), null)", {"type": ["int", "null"], "value": None}, ["int", "null"]), ("json(union(int, null), {int: 4})", {"type": ["int", "null"], "value": {"int": 4}}, ["int", "null"]),
    ("json(array(boolean), [true, false])", {"type": arr("boolean"), "value": [True, False]}, arr("boolean")), ("json(array(array(double)), [[1.5], [], [-2, 3e2]])", {"type": arr(arr(D)), "value": [[1.5], [], [-2, 300.0]]}, arr(arr(D))),
    ("new(array(int), 1, 2)", {"type": AI, "new": [1, 2]}, AI), ("new(map(int), a: 1, \"b c\": 2, 'd': 3)", {"type": MI, "new": {"a": 1, "b c": 2, "d": 3}}, MI), ("m.pi()", {"m.pi": []}, D),
    ("{3}", {"do": 3}, "int"), ("{1; 2}", {"do": [1, 2]}, "int"), ("{1; 2;}", {"do": [1, 2]}, "int"), ("(((3)))", 3, "int"), ("-(3)", -3, "int"), ("- - 3", 3, "int"), ("-2 ** 2", -4, "int"), ("3 - -2", 5, "int"), ("3 -2", 1, "int"), ("3-2", 1, "int"), ("2 ** -1", {"**": [2, -1]}, "int"),
    ("7 idiv 2", 3, "int"), ("-7 % 3", 2, "int"), ("-7 %% 3", -1, "int"), ("7 / 2", 3.5, D), ("~5", -6, "int"), ("6 & 3 | 8 ^ 1", 11, "int"), ("!true || true", True, "boolean"), ("true ^^ true && false", True, "boolean"),
]


def t_text(t):
    if isinstance(t, list):
        return "union(" + ", ".join(t_text(x) for x in t) + ")"
    if isinstance(t, dict):
        return "%s(%s)" % (t["type"], t_text(t["items"] if t["type"] == "array" else t["values"]))
    return t


def compiled(text, how, **subs):
    """the engine of a text, by one of the ways to get it"""
    from titus import prettypfa
    from titus.genpy import PFAEngine
    if how == 0:
        return PFAEngine.fromJson(prettypfa.json(text, **subs))[0]
    if how == 1:
        return PFAEngine.fromJson(prettypfa.jsonNode(text, lineNumbers=False, **subs))[0]
    if how == 2:
        return PFAEngine.fromAst(prettypfa.ast(text, **subs))[0]
    return prettypfa.engine(text, subs=subs)[0]


def use(e, inputs, merge):
    """outputs, emissions, logs and final state"""
    logs, out = [], []
    e = e.fresh()
    e.log = lambda xs, namespace=None: logs.append((list(xs), namespace))
    r = outcome(e.begin)
    for v in inputs:
        if r[0] != "ok":
            break
        r = outcome(e.action, copy_tree(v))
        if r[0] == "ok":
            out.append(r[1])
    if r[0] == "ok":
        r = outcome(e.end)
    if r[0] == "ok" and merge and e.config.method == "fold":
        r = outcome(e.merge, out[0], copy_tree(out[-1]))
        out.append(r[1])
    return r, out, list(e.emitted), logs, dict((k, x.value) for k, x in e.cells.items()), dict((k, x.value) for k, x in e.pools.items())


def compare(c, mine, ref, inputs, label):
    a, b = use(mine, inputs, True), use(ref, inputs, True)
    c.observe(label + ".out", a[0][0])
    c.check(a[0][0] == b[0][0], label + ": outcome")
    if a[0][0] != "ok":
        c.check(a[0][1] == b[0][1], label + ": error code")
    for k, what in ((1, "outputs"), (2, "emissions"), (3, "logs"), (4, "cells"), (5, "pools")):
        c.check(c.same(a[k], b[k]), label + ": " + what)


def text_job(name, text, doc, n=2, **kw):
    def setup():
        ref = make_engine(once(doc, set()))
        return [Eng(compiled(text, how)) for how in range(4)], ref

    def fn(c, env):
        mine, ref = env
        how = c.choice("how", [0, 1, 2, 3])
        inputs = [gen(c, "in%d" % k, expand(doc["input"]), B(arr=2, keys="a", lens=[2])) for k in range(n)]
        a, b = mine[how].e.config, ref.e.config
        for field in ("method", "version", "randseed", "doc", "metadata", "options"):
            c.check(getattr(a, field) == getattr(b, field), name + ": " + field)
        if "name" in doc:
            c.check(a.name == b.name, name + ": name")
        for kind in ("cells", "pools"):
            x, y = getattr(a, kind), getattr(b, kind)
            c.check(sorted(x) == sorted(y), name + ": " + kind)
            for k in x:
                c.check((x[k].shared, x[k].rollback, x[k].source) == (y[k].shared, y[k].rollback, y[k].source), name + ": " + kind + " flags")
        compare(c, mine[how], ref, inputs, name)
    return Job(name, fn, setup, **kw)


def expand(t, names=None):
    names = {} if names is None else names
    if isinstance(t, list):
        return [expand(x, names) for x in t]
    if isinstance(t, dict):
        if t["type"] in ("record", "enum", "fixed"):
            names[t["name"]] = t
        if t["type"] == "record":
            out = dict(t, fields=[dict(f, type=expand(f["type"], names)) for f in t["fields"]])
            names[t["name"]] = out
            return out
        return dict((k, expand(v, names) if k in ("items", "values") else v) for k, v in t.items())
    return names.get(t, t)


def literals_setup():
    out = []
    for k, (text, js, t) in enumerate(LITERALS):
        mine = Eng(compiled("input: int\noutput: %s\naction: %s\n" % (t_text(t), text), k % 4))
        out.append((text, mine, make_engine({"input": "int", "output": t, "action": [js]})))
    return out


def literals_fn(c, env):
    text, mine, ref = env[c.choice("text", list(range(len(env))))]
    x = c.int("x")
    a, b = act(mine, x), act(ref, x)
    c.check(a[0] == b[0] and c.same(a[1], b[1]), text)
    c.check(type(a[1]) == type(b[1]), text + ": type")


SUBS = [
    # (text of the action, substitutions, document)
    ("<<x>> * 2", {"x": "input + 1"}, {"*": [{"+": ["input", 1]}, 2]}),
    ("2 * <<x>> - <<y>>", {"x": {"+": ["input", 1]}, "y": 7}, {"-": [{"*": [2, {"+": ["input", 1]}]}, 7]}),
    ("a.sum(new(<<t>>, input, <<x>>))", {"t": AI, "x": "input % 4"}, {"a.sum": [{"type": AI, "new": ["input", {"%": ["input", 4]}]}]}),
    ("a.sum(a.map(json(<<t>>, <<v>>), fcn(x: int -> int) x + <<z>>))", {"t": AI, "v": [1, 2], "z": "input"}, {"a.sum": {"a.map": [{"type": AI, "value": [1, 2]}, fcn([("x", "int")], "int", {"+": ["x", "input"]})]}}),
    ("new(record(<<n>>, x: int), x: input)['x']", {"n": "Some"}, {"attr": {"type": rec("Some", [("x", "int")]), "new": {"x": "input"}}, "path": [s("x")]}),
    ("s.len(if (json(enum([a, b], <<n>>), \"a\") == json(Some, \"b\")) 'x' else 'yy') + input", {"n": "Some"}, {"+": [2, "input"]}),
    ("bytes.len(fixed.toBytes(json(fixed(3, <<n>>), \"abc\"))) + input", {"n": "Some"}, {"+": [3, "input"]}),
    ("if (<<p>>) <<a>> else {<<b>>}", {"p": "input > 3", "a": "input - 1", "b": {"*": ["input", 0]}}, {"if": {">": ["input", 3]}, "then": {"-": ["input", 1]}, "else": {"*": ["input", 0]}}),
]


def subs_setup():
    from titus import prettypfa
    from titus.genpy import PFAEngine
    out = []
    for k, (text, subs, js) in enumerate(SUBS):
        whole = "name: <<engine>>\ninput: int\noutput: <<out>>\ncells: c(int) = <<init>>\naction: c = c + 1; %s\n" % text
        subs = dict(subs, engine="Some%d" % k, out="int", init=4)
        ref = make_engine({"name": "Some%d" % k, "input": "int", "output": "int", "cells": {"c": {"type": "int", "init": 4}}, "action": [{"cell": "c", "to": {"+": [{"cell": "c"}, 1]}}, js]})
        out.append((text, [Eng(compiled(whole, how, **subs)) for how in range(4)], ref))
        head = {"input": "int", "output": "int"}
        out.append((text + " as expression", [make_engine(dict(head, action=prettypfa.expr(text, **subs)))], make_engine(dict(head, action=js))))
    return out


def subs_fn(c, env):
    text, mine, ref = env[c.choice("text", list(range(len(env))))]
    k = c.choice("how", list(range(len(mine))))
    if len(mine) == 4:
        c.check(mine[k].e.config.name == ref.e.config.name, text + ": name")
    compare(c, mine[k], ref, [c.int("x"), c.int("y")], text)


REFUSED = ["input: int\noutput: int\naction: x +\n", "input: int\noutput: int\naction: 9223372036854775808\n", "input: int\noutput: int\n", "input: int\naction: input\n", "input: int\noutput: int\naction: input\nwrong: 3\n", "input: int\noutput: int\naction: (input\n",
           "input: int\noutput: int\naction: input $ 3\n", "input: int\noutput: int\nmethod: other\naction: input\n", "input: int\noutput: int\ncells: n(int) = 3\naction: n to 3; input\n", "input: int\noutput: int\ncells: n(int) = 3\naction: n = fcn(x: int -> int) x; input\n",
           "input: int\noutput: int\npools: p(int) = {}\naction: p['a'] to fcn(x: int -> int) x; input\n", "input: int\noutput: int\npools: p(int) = 3\naction: input\n", "input: int\noutput: int\ncells: n(int) = 3\naction: n to fcn(x: int -> int) x init 3; input\n",
           "input: int, int\noutput: int\naction: input\n", "input: int\noutput: int\naction: var x.y = 3; input\n", "input: int\noutput: int\naction: new(array(int), a: 3)[0]\n", "input: int\noutput: int\naction: {}\n", "input: int\noutput: int\naction: input\"\n",
           "input: int\noutput: int\nrandseed: words\naction: input\n", "input: int\noutput: int\nversion: 2.5\naction: input\n", "input: int\noutput: string\naction: input\n", "input: int\noutput: int\naction: x\n", "input: int\noutput: int\naction: foreach (x: new(array(int), 3), seq: 4) x; input\n"]


def refused_fn(c, env):
    from titus import prettypfa
    from titus.errors import PrettyPfaException, PFASyntaxException, PFASemanticException
    k = c.choice("text", list(range(len(REFUSED))))
    try:
        prettypfa.engine(REFUSED[k])
        refused = False
    except (PrettyPfaException, PFASyntaxException, PFASemanticException):
        refused = True
    c.check(refused, "accepted: " + REFUSED[k])


def pairs():
    return [(a, b) for a in BINARY for b in BINARY]


def jobs(tier):
    deep = tier == "thorough"
    out = [Job("chained comparisons", chains_refused, lambda: True), Job("refused", refused_fn, lambda: True)]
    for k, (kind, ops) in enumerate(LEVELS):
        if kind == "p":
            continue
        out.append(operator_job("operators " + " ".join(ops), lambda ops=ops: lines([(a,) for a in ops]) + lines([p for p in pairs() if p[0] in ops]), max_paths=3000))
        for some in [[op] for op in ops] if len(ops) > 2 else [ops]:
            out.append(operator_job("prefixes " + " ".join(some), lambda ops=some: lines([(a,) for a in ops] + [p for p in pairs() if p[0] in ops],
                                                                                    [((at, op),) for at in (0, 1, 2) for op in ("u-", "~", "!")] + [((0, "u-"), (1, "u-")), ((0, "~"), (0, "u-")), ((1, "u-"), (1, "~")), ((1, "!"), (1, "!"))]), divisors=DIVISORS if some[0] in LEVELS[9][1] else None, max_paths=3000))
        if deep:
            out.append(operator_job("three operators " + " ".join(ops), lambda ops=ops: lines([(a, b, d) for a in ops for b in BINARY for d in BINARY]), max_paths=6000, limit=300))
    for k in sorted(STATEMENTS):
        out.append(text_job("statement " + k, STATEMENTS[k][0], STATEMENTS[k][1], n=2 if deep else 1, max_paths=3000))
    for k in sorted(SECTIONS):
        out.append(text_job("document " + k, SECTIONS[k][0], SECTIONS[k][1], n=3 if deep else 2, max_paths=3000))
    out.append(Job("literals", literals_fn, literals_setup))
    out.append(Job("substitutions", subs_fn, subs_setup))
    return out
