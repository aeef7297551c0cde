"""Schemas and their JSON form (titus/datatype.py jsonNode, toJson, ForwardDeclarationParser, AvroTypeBuilder)."""
import json
from harness.lib import *
from harness.typeacc import kind, full, tagof, parse, PRIM, container, union, small, recursive

A = lambda t: {"type": "array", "items": t}
M = lambda t: {"type": "map", "values": t}


def ns(c, n, t):
    s = c.choice(n + ".ns", [None, "a", "a.b"])
    return dict(t, namespace=s) if s else t


def leaf(c, n):
    k = c.choice(n, PRIM + ["fixed", "enum"])
    if k == "fixed":
        return ns(c, n, {"type": "fixed", "name": "Fx", "size": c.int(n + ".size", 0, 1000)})
    if k == "enum":
        return ns(c, n, {"type": "enum", "name": "En", "symbols": c.choice(n + ".sym", [["x"], ["x", "y"], ["y", "x"]])})
    return k


DEFAULTS = {"null": [None], "boolean": "bool", "int": "int", "long": "int", "double": "real", "string": "str"}


def dflt(c, n, t):
    if isinstance(t, list):
        return dflt(c, n, t[0])
    k = kind(t)
    if k == "null":
        return None
    if k == "boolean":
        return c.bool(n)
    if k == "int":
        return c.int(n)
    if k == "double":
        return c.real(n)
    if k == "string":
        return c.str(n, 1)
    if k == "array":
        return [dflt(c, n + ".0", t["items"])] if c.choice(n + "?", [False, True]) else []
    if k == "map":
        return {"k": dflt(c, n + ".k", t["values"])} if c.choice(n + "?", [False, True]) else {}
    return c.choice(n, t["symbols"])


def record(types, names=("x", "xy")):
    def g(c, n):
        fs = []
        for f in c.choice(n + ".fields", list(names)):
            t = c.choice(n + "." + f, types)
            d = {"name": f, "type": t}
            if c.choice(n + "." + f + "?", [False, True]):
                d["default"] = dflt(c, n + "." + f + "=", t)
            o = c.choice(n + "." + f + "^", [None, "ascending", "descending", "ignore"])
            if o:
                d["order"] = o
            fs.append(d)
        out = ns(c, n, {"type": "record", "name": "Rec", "fields": fs})
        if "namespace" in out:      # nested definitions live in the namespace of the record
            out["fields"] = [dict(f, type=dict(f["type"], namespace=out["namespace"])) if isinstance(f["type"], dict) and "name" in f["type"] else f for f in fs]
        return out
    return g


def normal(t):
    """the JSON form with every key in the order jsonNode writes it is irrelevant: compare as data; drop what means the same when absent"""
    if isinstance(t, list):
        return [normal(x) for x in t]
    if isinstance(t, dict):
        t = dict((k, v if k in ("default", "symbols") else normal(v)) for k, v in t.items())
        if t.get("order") == "ascending":
            del t["order"]
        return t
    return t


def inherit(t, space=None):
    """Names are written relative to the enclosing namespace when read; jsonNode writes full names for references."""
    return t


def trip(name, g, **kw):
    """read, write, read: equal, mutually accepting, and the text says what the schema said; writing is repeatable"""
    def setup():
        return None

    def fn(c, env):
        s = g(c, "S")
        t = parse(s)
        j = t.jsonNode(set())
        u = parse(j)
        c.check(u == t, name + ": reading what was written gives an equal schema")
        c.check(c.and_(u.accepts(t), t.accepts(u)), name + ": and mutually accepting")
        c.check(c.same(normal(j), normal(s)), name + ": the JSON form says what the schema said")
        c.check(c.same(t.jsonNode(set()), j), name + ": writing again gives the same")
        c.check(c.same(json.loads(t.toJson()), j), name + ": toJson is the text of jsonNode")
        c.check(c.same(u.jsonNode(set()), j), name + ": writing the reread schema gives the same")
        deep(c, t, s, name)
    return Job("roundtrip." + name, fn, setup, **kw)


def deep(c, t, s, name):
    """the accessors describe the schema"""
    from titus import datatype as D
    cls = {"null": D.AvroNull, "boolean": D.AvroBoolean, "int": D.AvroInt, "long": D.AvroLong, "float": D.AvroFloat, "double": D.AvroDouble, "bytes": D.AvroBytes, "string": D.AvroString,
           "array": D.AvroArray, "map": D.AvroMap, "fixed": D.AvroFixed, "enum": D.AvroEnum, "record": D.AvroRecord, "union": D.AvroUnion}
    k = kind(s)
    if k not in cls:
        return
    c.check(type(t) is cls[k], name + ": kind of type")
    if k == "array":
        deep(c, t.items, s["items"], name)
    elif k == "map":
        deep(c, t.values, s["values"], name)
    elif k == "union":
        c.check(len(t.types) == len(s), name + ": number of alternatives")
        for a, b in zip(t.types, s):
            deep(c, a, b, name)
    elif k in ("fixed", "enum", "record"):
        c.check(t.name == s["name"] and (t.namespace or None) == s.get("namespace") and t.fullName == full(s), name + ": name")
        if k == "fixed":
            c.check(t.size == s["size"], name + ": size")
        elif k == "enum":
            c.check(list(t.symbols) == s["symbols"], name + ": symbols")
        else:
            c.check([f.name for f in t.fields] == [f["name"] for f in s["fields"]], name + ": fields in order")
            for f, g in zip(t.fields, s["fields"]):
                deep(c, f.avroType, g["type"], name)
                c.check(f.hasDefault == ("default" in g), name + ": has a default")
                if "default" in g:
                    c.check(c.same(f.default, g["default"]), name + ": default value")
                c.check((f.order or "ascending") == g.get("order", "ascending"), name + ": sort order")


DECLS = [
    [{"type": "record", "name": "P", "fields": [{"name": "q", "type": "Q"}]}, {"type": "record", "name": "Q", "fields": [{"name": "e", "type": ["null", "E"]}]}, {"type": "enum", "name": "E", "symbols": ["x"]}, A("P")],
    [{"type": "record", "name": "L", "fields": [{"name": "v", "type": "F"}, {"name": "next", "type": ["null", "L"]}]}, {"type": "fixed", "name": "F", "size": 3}, M("L"), "L"],
    [{"type": "record", "name": "P", "namespace": "a", "fields": [{"name": "q", "type": "b.Q"}]}, {"type": "record", "name": "Q", "namespace": "b", "fields": [{"name": "v", "type": "int", "default": 3}]}, ["a.P", "b.Q"], "b.Q"],
    [{"type": "record", "name": "P", "fields": [{"name": "q", "type": {"type": "record", "name": "Q", "fields": [{"name": "v", "type": "E"}]}}]}, {"type": "enum", "name": "E", "symbols": ["x", "y"]}, A("Q"), ["Q", "E", "null"]],
    ["int", A("int"), A("E"), {"type": "enum", "name": "E", "namespace": "", "symbols": ["s"]}],
]


def perm(c, n):
    left, out = list(range(n)), []
    while left:
        i = c.choice("p%d" % len(out), left)
        left.remove(i)
        out.append(i)
    return out


def declarations(name, **kw):
    """types declared in any order resolve to the same types; writing them with one memo declares each name once"""
    def setup():
        return None

    def fn(c, env):
        from titus.datatype import ForwardDeclarationParser, AvroTypeBuilder
        k = c.choice("set", list(range(len(DECLS))))
        texts = [json.dumps(d) for d in DECLS[k]]
        # dependency order: named leaves first
        order = perm(c, len(texts))
        ref = resolve(DECLS[k])
        got = ForwardDeclarationParser().parse([texts[i] for i in order])
        for d, text in zip(DECLS[k], texts):
            want = ref[text]
            c.check(expand(got[text].jsonNode(set()), {}) == expand(want, {}), name + ": resolved independently of the order")
        # one placeholder per declaration, as the reader builds them
        b = AvroTypeBuilder()
        memo = {}
        ps = [(texts[i], b.makePlaceholder(texts[i], memo)) for i in order]
        b.resolveTypes()
        for text, p in ps:
            c.check(p.avroType == got[text], name + ": the reader's placeholders resolve to the same types")
            c.check(p.parser.getAvroType(json.loads(p.avroType.toJson()) if kind(json.loads(text)) not in ("record", "fixed", "enum") else tagof(json.loads(text))) == p.avroType or kind(json.loads(text)) in ("array", "map", "union"), name + ": lookup by description")
        # written with a shared memo, in this order, and read again
        shared = set()
        nodes = [p.jsonNode(shared) for text, p in ps]
        again = ForwardDeclarationParser().parse([json.dumps(x) for x in nodes])
        for (text, p), node in zip(ps, nodes):
            c.check(again[json.dumps(node)] == p.avroType, name + ": written with names declared once and read back")
    return Job(name, fn, setup, **kw)


def resolve(decls):
    """every declaration with all names replaced by their definitions at first occurrence (reference)"""
    table = {}

    def collect(t, space):
        if isinstance(t, list):
            for x in t:
                collect(x, space)
        elif isinstance(t, dict):
            sp = space
            if "name" in t:
                sp = t.get("namespace", space) or None
                table[(sp + "." if sp else "") + t["name"]] = t
            for k in ("items", "values"):
                if k in t:
                    collect(t[k], sp)
            for f in t.get("fields", []):
                collect(f["type"], sp)
    for d in decls:
        collect(d, None)

    def expand1(t, seen, space=None):
        if isinstance(t, str):
            if t in table:
                if t in seen:
                    return t
                return expand1(table[t], seen)
            return t
        if isinstance(t, list):
            return [expand1(x, seen) for x in t]
        t = dict(t)
        if not t.get("namespace", "x"):
            del t["namespace"]
        if "name" in t:
            if full(t) in seen:
                return full(t)
            seen.add(full(t))
        for k in ("items", "values"):
            if k in t:
                t[k] = expand1(t[k], seen)
        if "fields" in t:
            t["fields"] = [dict(f, type=expand1(f["type"], seen)) for f in t["fields"]]
        return t
    return dict((json.dumps(d), expand1(d, set())) for d in decls)


def expand(t, table):
    """canonical: drop ascending orders, as JSON data"""
    return normal(json.loads(json.dumps(t)))


def conflict(name, **kw):
    """a name may be declared twice only with the same definition"""
    def setup():
        return None

    def fn(c, env):
        from titus.datatype import AvroTypeBuilder
        from titus.errors import AvroException
        k = c.choice("kind", ["fixed", "enum", "record"])

        def one(n):
            nm = c.choice(n + ".name", ["N", "M"])
            sp = c.choice(n + ".ns", [None, "", "p"])
            t = {"type": k, "name": nm}
            if sp is not None:
                t["namespace"] = sp
            if k == "fixed":
                t["size"] = c.choice(n + ".size", [1, 2])
            elif k == "enum":
                t["symbols"] = c.choice(n + ".s", [["x"], ["x", "y"], ["y", "x"]])
            else:
                t["fields"] = c.choice(n + ".f", [[], [{"name": "x", "type": "int"}], [{"name": "x", "type": "int", "default": 3}]])
            return t
        a, b = one("a"), one("b")
        inner = c.choice("wrap", [False, True])
        builder, memo = AvroTypeBuilder(), {}
        norm = lambda t: dict((x, y) for x, y in t.items() if x != "namespace" or y)
        clash = full(a) == full(b) and norm(a) != norm(b)
        try:
            p = builder.makePlaceholder(json.dumps(a), memo)
            q = builder.makePlaceholder(json.dumps(A(b) if inner else b), memo)
            builder.resolveTypes()
        except AvroException:
            c.check(clash, name + ": refused only for conflicting definitions")
            return
        c.check(not clash, name + ": conflicting definitions are refused")
        c.check(p.avroType == parse(norm(a)) and q.avroType == parse(A(norm(b)) if inner else norm(b)), name + ": both resolve")
        c.check((p.avroType == (q.avroType.items if inner else q.avroType)) == (norm(a) == norm(b)), name + ": equal exactly when declared alike")
    return Job(name, fn, setup, **kw)


def equality(name, g, **kw):
    """schemas are equal exactly when their JSON forms say the same"""
    def setup():
        return None

    def fn(c, env):
        a, b = g(c, "A"), g(c, "B")
        x, y = parse(a), parse(b)
        e = x == y
        c.check(bool(e) == bool(c.same(a, b)), name + ": equal exactly when written alike")
        if e:
            c.check(x.accepts(y), name + ": equal schemas accept each other")
    return Job("equality." + name, fn, setup, **kw)


def lookup(name, g, **kw):
    """describing an anonymous type to the parser gives the same type as reading it"""
    def setup():
        return None

    def fn(c, env):
        from titus.datatype import ForwardDeclarationParser
        s = g(c, "S")
        p = ForwardDeclarationParser()
        p.parse([json.dumps({"type": "enum", "name": "En", "symbols": ["x"]})])
        got = p.getAvroType(s)
        want = p.parse([json.dumps(s)])[json.dumps(s)]
        c.check(got == want, name + ": the same type")
        c.check(p.getAvroType(json.dumps(s)) == want, name + ": the same type from text")
    return Job("lookup." + name, fn, setup, **kw)


def jobs(tier):
    deep_ = tier == "thorough"
    yield trip("leaf", leaf)
    yield trip("container", container(leaf))
    yield trip("container2", container(container(container(small))))
    yield trip("union", union(["null", "int", "double", "string", A("int"), M("string"), {"type": "fixed", "name": "Fx", "size": 3}], (1, 2, 3)))
    yield trip("union-container", container(union(["null", "int", "double", "string"])))
    yield trip("record-leaf", record(["null", "boolean", "int", "double", "string"], ("x", "xy") if deep_ else ("x",)), limit=800)
    yield trip("record2", record(["int", "string"]), limit=400)
    yield trip("record-complex", record([A("int"), M("string"), ["null", "int"], ["string", "null"], {"type": "enum", "name": "En", "symbols": ["x", "y"]}], ("x",)))
    yield trip("recursive", recursive)
    yield declarations("declarations")
    yield conflict("conflicts")
    yield equality("leaf", leaf, limit=300)
    yield equality("container", container(leaf) if deep_ else container(small), limit=300)
    yield equality("union", union(["null", "int", "string"]))
    yield equality("record", record(["int", "string"], ("x",)), limit=300)
    yield lookup("containers", container(container(lambda c, n: c.choice(n, PRIM + ["En"]))))
    yield lookup("unions", union(["null", "int", "string", "En", A("int"), M("double")]))
    yield lookup("wrapped", lambda c, n: {"type": c.choice(n, PRIM)})
