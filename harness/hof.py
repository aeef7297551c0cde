"""Higher-order array functions: a.map/filter/fold/... with user functions, function references and partial application."""
from harness.lib import *
from harness.arrays import AI, AAI, midarr, mid, has

MI = {"type": "map", "values": "int"}
OPT = ["int", "null"]
B4 = [0, 1, 2, 3, 4]


def fdef(params, ret, do):
    return {"params": [{n: t} for n, t in params], "ret": ret, "do": do}


def lin(k, *xs):
    """k-weighted combination distinguishing argument order: x + 2*y + 4*z ..."""
    e, w = xs[0], 1
    for x in xs[1:]:
        w *= k
        e = {"+": [e, {"*": [w, x]}]}
    return e


def val(k, *xs):
    s, w = 0, 1
    for x in xs:
        s = s + w * x
        w *= k
    return s


def fold(f, zero, xs):
    for x in xs:
        zero = f(zero, x)
    return zero


def J(name, expr, oracle, ret, two=False, lens=None, params=None, gens=None, extra=None, lim=1000000, **kw):
    ps = params or ({"a": AI, "b": AI} if two else {"a": AI})
    gg = dict((p, midarr(lens or ([0, 1, 2, 3] if two else B4))) for p in ps if ps[p] == AI)
    gg.update(gens or {})
    return F(name, ps, ret, expr, oracle, gens=gg, extra=extra, **kw)


def key(x):
    return "neg" if x < 0 else "zero" if x == 0 else "pos"


KEYFN = fdef([("x", "int")], "string", {"cond": [{"if": {"<": ["x", 0]}, "then": {"string": "neg"}}, {"if": {"==": ["x", 0]}, "then": {"string": "zero"}}], "else": {"string": "pos"}})


def need(a, code):
    if len(a) == 0:
        raise Err(code)


def prefix(a, p):
    n = 0
    for x in a:
        if not p(x):
            break
        n += 1
    return n


def fmskip(c, out):
    """A map whose only key is the name of its own type is mistaken for a tagged union value."""
    if out and c.known("filtermap-singlekey", True):
        raise Err(SKIP)
    return out


def jobs(tier):
    x1, ix, xy = [("x", "int")], [("i", "int"), ("x", "int")], [("x", "int"), ("y", "int")]
    half = {"/": ["x", 2]}
    AD, AB = {"type": "array", "items": "double"}, {"type": "array", "items": "boolean"}
    neg = {"<": ["x", 0]}
    ev = {"==": [{"%": [{"+": ["i", 0]}, 2]}, 0]}
    yield J("a.map", {"a.map": ["input.a", fdef(x1, "int", {"+": [{"*": ["x", 3]}, 1]})]}, lambda c, a: [3 * x + 1 for x in a], AI)
    yield J("a.map to another type", {"a.map": ["input.a", fdef(x1, "boolean", neg)]}, lambda c, a: [x < 0 for x in a], AB)
    yield J("a.mapWithIndex", {"a.mapWithIndex": ["input.a", fdef(ix, "int", lin(5, "x", "i"))]}, lambda c, a: [x + 5 * i for i, x in enumerate(a)], AI)
    yield J("a.filter", {"a.filter": ["input.a", fdef(x1, "boolean", neg)]}, lambda c, a: [x for x in a if x < 0], AI)
    yield J("a.filterWithIndex", {"a.filterWithIndex": ["input.a", fdef(ix, "boolean", {"<": ["x", "i"]})]}, lambda c, a: [x for i, x in enumerate(a) if x < i], AI)
    yield J("a.filterMap", {"a.filterMap": ["input.a", fdef(x1, OPT, {"if": neg, "then": {"-": ["x", 1]}, "else": None})]}, lambda c, a: [x - 1 for x in a if x < 0], AI)
    yield J("a.filterMapWithIndex", {"a.filterMapWithIndex": ["input.a", fdef(ix, OPT, {"if": {"<": ["x", "i"]}, "then": lin(7, "x", "i"), "else": None})]},
            lambda c, a: [x + 7 * i for i, x in enumerate(a) if x < i], AI)
    yield J("a.flatMap", {"a.flatMap": ["input.a", fdef(x1, AI, {"if": neg, "then": {"type": AI, "value": []}, "else": {"new": ["x", {"+": ["x", 1]}], "type": AI}})]},
            lambda c, a: [y for x in a if not x < 0 for y in (x, x + 1)], AI)
    yield J("a.flatMapWithIndex", {"a.flatMapWithIndex": ["input.a", fdef(ix, AI, {"if": {"<": ["x", "i"]}, "then": {"type": AI, "value": []}, "else": {"new": ["x", "i"], "type": AI}})]},
            lambda c, a: [y for i, x in enumerate(a) if not x < i for y in (x, i)], AI)

    def zipped(n, idx):
        ps = dict((p, AI) for p in "abcd"[:n])
        nm = "a.zipmapWithIndex" if idx else "a.zipmap"
        names = [("i", "int")] * idx + [(p, "int") for p in "wxyz"[:n]]

        def f(c, *arrs):
            if any(len(q) != len(arrs[0]) for q in arrs):
                raise Err(15660 if idx else 15650)
            return [val(3, *([i] if idx else []), *[q[i] for q in arrs]) for i in range(len(arrs[0]))]
        return J("%s %d" % (nm, n), {nm: ["input." + p for p in ps] + [fdef(names, "int", lin(3, *[q for q, _ in names]))]}, f, AI, params=ps, lens=[0, 1, 2] if n < 4 else [0, 2])
    for n in (2, 3, 4):
        yield zipped(n, 0)
        yield zipped(n, 1)
    red = fdef(xy, "int", lin(3, "x", "y"))

    def reduce_(c, a):
        need(a, 15670)
        return fold(lambda s, x: s + 3 * x, a[0], a[1:])

    def reduceR(c, a):
        need(a, 15680)
        return fold(lambda s, x: x + 3 * s, a[-1], a[:-1][::-1])
    yield J("a.reduce", {"a.reduce": ["input.a", red]}, reduce_, "int")
    yield J("a.reduceRight", {"a.reduceRight": ["input.a", red]}, reduceR, "int")
    pz = {"a": AI, "z": "int"}
    gz = {"z": mid}
    yield J("a.fold", {"a.fold": ["input.a", "input.z", red]}, lambda c, a, z: fold(lambda s, x: s + 3 * x, z, a), "int", params=pz, gens=gz)
    yield J("a.foldRight", {"a.foldRight": ["input.a", "input.z", red]}, lambda c, a, z: fold(lambda s, x: x + 3 * s, z, a[::-1]), "int", params=pz, gens=gz)
    SR = {"type": "record", "name": "Acc", "fields": [{"name": "n", "type": "int"}, {"name": "s", "type": "int"}]}
    yield J("a.fold record", {"a.fold": ["input.a", {"type": SR, "value": {"n": 0, "s": 0}},
                                         {"params": [{"t": "Acc"}, {"x": "int"}], "ret": "Acc", "do": {"new": {"n": {"+": ["t.n", 1]}, "s": {"+": [{"*": ["t.s", 2]}, "x"]}}, "type": "Acc"}}]},
            lambda c, a: {"n": len(a), "s": fold(lambda s, x: 2 * s + x, 0, a)}, SR, check_type=False)
    yield J("a.takeWhile", {"a.takeWhile": ["input.a", fdef(x1, "boolean", neg)]}, lambda c, a: a[:prefix(a, lambda x: x < 0)], AI)
    yield J("a.dropWhile", {"a.dropWhile": ["input.a", fdef(x1, "boolean", neg)]}, lambda c, a: a[prefix(a, lambda x: x < 0):], AI)
    yield J("a.any", {"a.any": ["input.a", fdef(x1, "boolean", neg)]}, lambda c, a: any([x < 0 for x in a]), "boolean")
    yield J("a.all", {"a.all": ["input.a", fdef(x1, "boolean", neg)]}, lambda c, a: all([x < 0 for x in a]), "boolean")
    yield J("a.corresponds", {"a.corresponds": ["input.a", "input.b", fdef(xy, "boolean", {"<": ["x", "y"]})]},
            lambda c, a, b: len(a) == len(b) and all([x < y for x, y in zip(a, b)]), "boolean", two=True)
    yield J("a.correspondsWithIndex", {"a.correspondsWithIndex": ["input.a", "input.b", fdef([("i", "int")] + xy, "boolean", {"<": [{"+": ["x", "i"]}, "y"]})]},
            lambda c, a, b: len(a) == len(b) and all([x + i < y for i, (x, y) in enumerate(zip(a, b))]), "boolean", two=True)

    def groupby(c, a):
        out = {}
        for x in a:
            out.setdefault(key(x), []).append(x)
        return out
    yield J("a.groupby", {"a.groupby": ["input.a", KEYFN]}, groupby, {"type": "map", "values": AI})
    # errors inside the callback reach the caller with their own code
    yield J("a.map callback error", {"a.map": ["input.a", fdef(x1, "int", {"do": [{"if": neg, "then": {"error": "bad", "code": -3}}, "x"]})]},
            lambda c, a: a, AI, cmp=lambda c, got, want, l: c.check(c.eq(got[0] == "user", any([x < 0 for x in want[1]])) if got[0] == "user" or got[0] == "ok" else False, l + ": error escapes exactly when some element fails"))
    # closures read the enclosing scope at call time and never write it
    yield J("closure reads enclosing variable", {"do": [{"let": {"k": "input.z"}}, {"a.map": ["input.a", fdef(x1, "int", {"+": ["x", "k"]})]}]},
            lambda c, a, z: [x + z for x in a], AI, params=pz, gens=gz)
    yield J("callback locals are fresh per call", {"a.map": ["input.a", fdef(x1, "int", {"do": [{"let": {"t": "x"}}, {"if": neg, "then": {"set": {"t": {"+": ["t", 1]}}}}, "t"]})]},
            lambda c, a: [x + 1 if x < 0 else x for x in a], AI)
    # references: user function, library function, partial application
    uf = {"fcns": {"lin": fdef(xy, "int", lin(3, "x", "y")), "three": fdef([("x", "int"), ("y", "int"), ("z", "int")], "int", lin(3, "x", "y", "z"))}}
    yield J("fcnref user", {"a.reduce": ["input.a", {"fcn": "u.lin"}]}, reduce_, "int", extra=uf)
    yield J("fill second", {"a.map": ["input.a", {"fcn": "u.lin", "fill": {"y": "input.z"}}]}, lambda c, a, z: [x + 3 * z for x in a], AI, params=pz, gens=gz, extra=uf)
    yield J("fill first", {"a.map": ["input.a", {"fcn": "u.lin", "fill": {"x": "input.z"}}]}, lambda c, a, z: [z + 3 * x for x in a], AI, params=pz, gens=gz, extra=uf)
    yield J("fill middle", {"a.reduce": ["input.a", {"fcn": "u.three", "fill": {"y": "input.z"}}]},
            lambda c, a, z: need(a, 15670) or fold(lambda s, x: s + 3 * z + 9 * x, a[0], a[1:]), "int", params=pz, gens=gz, extra=uf, lens=[0, 1, 2, 3])
    yield J("fill evaluated in caller scope", {"do": [{"let": {"y": {"*": ["input.z", 2]}}}, {"a.map": ["input.a", {"fcn": "u.lin", "fill": {"y": {"+": ["y", 1]}}}]}]},
            lambda c, a, z: [x + 3 * (2 * z + 1) for x in a], AI, params=pz, gens=gz, extra=uf)
    yield J("fcnref library", {"a.map": ["input.a", {"fcn": "m.rint"}]}, lambda c, a: a, AD)
    yield J("fcnref library errors", {"a.map": ["input.a", {"fcn": "m.exp"}]}, lambda c, a: [1.0 for x in a], AD, gens={"a": lambda c, n: [0] * c.choice(n, [0, 1, 2])})
    yield J("call user function", {"u.three": ["input.z", "input.y", "input.x"]}, lambda c, z, y, x: z + 3 * y + 9 * x, "int", params={"z": "int", "y": "int", "x": "int"}, gens={"x": mid, "y": mid, "z": mid}, extra=uf)
    yield J("user functions do not see the caller's variables", {"do": [{"let": {"w": 5}}, {"u.lin": ["input.z", "w"]}]}, lambda c, z: z + 15, "int", params={"z": "int"}, gens=gz, extra=uf)
    fact = {"fcns": {"tri": fdef([("n", "int")], "int", {"if": {"<=": ["n", 0]}, "then": 0, "else": {"+": ["n", {"u.tri": [{"-": ["n", 1]}]}]}})}}
    yield J("recursive user function", {"u.tri": ["input.n"]}, lambda c, n: c.ite(n <= 0, 0, n * (n + 1) // 2), "int", params={"n": "int"}, gens={"n": lambda c, n: c.int(n, -3, 8)}, extra=fact)
    dyn = {"fcns": {"one": fdef(xy, "int", lin(3, "x", "y")), "two": fdef(xy, "int", lin(3, "y", "x"))}}
    yield J("call selects the function", {"call": {"if": {"<": ["input.z", 0]}, "then": {"type": {"type": "enum", "name": "W", "symbols": ["one", "two"]}, "value": "one"}, "else": {"type": "W", "value": "two"}}, "args": ["input.x", "input.y"]},
            lambda c, z, x, y: x + 3 * y if z < 0 else y + 3 * x, "int", params={"z": "int", "x": "int", "y": "int"}, gens={"x": mid, "y": mid, "z": mid}, extra=dyn)
    MO = {"type": "map", "values": "int"}
    yield J("a.filterMap to maps", {"a.filterMap": ["input.a", fdef(x1, [MO, "null"], {"if": neg, "then": {"new": {"map": "x"}, "type": MO}, "else": None})]},
            lambda c, a: fmskip(c, [{"map": x} for x in a if x < 0]), {"type": "array", "items": MO})
