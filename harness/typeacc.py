"""Type acceptance (titus/datatype.py accepts)."""
from harness.lib import *

NUM = ["int", "long", "float", "double"]


def parse(t):
    from titus.datatype import parseAvroType
    return parseAvroType(t)


def full(t):
    ns = t.get("namespace")
    return ns + "." + t["name"] if ns else t["name"]


def kind(t):
    return "union" if isinstance(t, list) else t if isinstance(t, str) else t["type"]


def tagof(t):
    return full(t) if isinstance(t, dict) and "name" in t else kind(t)


def acc(c, a, b, seen=()):
    """Reference relation: would a value of type b be accepted where a is expected?"""
    if isinstance(b, list):
        if isinstance(a, list):
            return c.and_(True, *[c.or_(False, *[acc(c, x, y, seen) for x in a]) for y in b])
        return c.and_(True, *[acc(c, a, y, seen) for y in b])
    if isinstance(a, list):
        return c.or_(False, *[acc(c, x, b, seen) for x in a])
    ka, kb = kind(a), kind(b)
    if ka in NUM and kb in NUM:
        return NUM.index(kb) <= NUM.index(ka)
    if ka != kb:
        return False
    if ka == "array":
        return acc(c, a["items"], b["items"], seen)
    if ka == "map":
        return acc(c, a["values"], b["values"], seen)
    if ka == "fixed":
        return c.and_(full(a) == full(b), a["size"] == b["size"])
    if ka == "enum":
        return full(a) == full(b) and all([s in a["symbols"] for s in b["symbols"]])
    if ka == "record":
        if full(a) != full(b):
            return False
        fb = dict((f["name"], f) for f in b["fields"])
        out = []
        for f in a["fields"]:
            if f["name"] in fb:
                ta, tb = f["type"], fb[f["name"]]["type"]
                if ta == full(a) and tb == full(b):
                    continue            # coinductive: the recursive occurrence is the pair being decided
                out.append(acc(c, unroll(ta, a), unroll(tb, b), seen))
            elif "default" not in f:
                return False
        return c.and_(True, *out)
    return True


def unroll(t, rec):
    """Replace the recursive name inside unions/arrays by a marker pair decided coinductively (names only)."""
    if isinstance(t, list):
        return [unroll(x, rec) for x in t]
    if t == full(rec):
        return {"type": "self", "name": t}
    if isinstance(t, dict) and t["type"] == "array":
        return {"type": "array", "items": unroll(t["items"], rec)}
    return t


PRIM = ["null", "boolean", "int", "long", "float", "double", "bytes", "string"]
ENUMS = [["a", "b"], ["a"], ["d", "a"], ["a", "b", "d"], ["b", "a"]]


def prim(c, n):
    return c.choice(n, PRIM)


def small(c, n):
    return c.choice(n, ["int", "double", "string", "null"])


def named(c, n):
    k = c.choice(n, ["fixed", "enum"])
    ns = c.choice(n + ".ns", [None, "p", "q"])
    t = {"type": k, "name": c.choice(n + ".name", ["N", "M"])}
    if ns:
        t["namespace"] = ns
    if k == "fixed":
        t["size"] = c.int(n + ".size", 0, 1000)
    else:
        t["symbols"] = c.choice(n + ".sym", ENUMS)
    return t


def leaf(c, n):
    """primitive or (few) named types"""
    k = c.choice(n, PRIM + ["fixed", "enum"])
    if k == "fixed":
        return {"type": "fixed", "name": "F", "size": c.int(n + ".size", 0, 1000)}
    if k == "enum":
        return {"type": "enum", "name": "E", "symbols": c.choice(n + ".sym", ENUMS[:3])}
    return k


def sleaf(c, n):
    t = leaf(c, n)
    return dict(t, size=c.choice(n + ".n", [0, 1, 2])) if kind(t) == "fixed" else t


def container(inner):
    def g(c, n):
        k = c.choice(n, ["array", "map"])
        t = inner(c, n + ".in")
        return {"type": "array", "items": t} if k == "array" else {"type": "map", "values": t}
    return g


def record(c, n):
    """one name of two, fields among x, y in either order, each with or without a default, types small"""
    fs = []
    for f in c.choice(n + ".fields", ["x", "y", "xy", "yx"]):
        t = c.choice(n + "." + f, ["int", "double", "string"])
        d = {"name": f, "type": t}
        if c.choice(n + "." + f + "?", [False, True]):
            d["default"] = {"int": 7, "double": 2.5, "string": "d"}[t]
        fs.append(d)
    return {"type": "record", "name": c.choice(n + ".name", ["R", "S"]), "fields": fs}


def record1(c, n):
    fs = []
    for f in c.choice(n + ".fields", ["x", "xy"]):
        fs.append({"name": f, "type": c.choice(n + "." + f, ["int", "double"])})
    return {"type": "record", "name": "R", "fields": fs}


def union(pool, sizes=(1, 2)):
    def g(c, n):
        k = c.choice(n + ".n", list(sizes))
        out, left = [], list(pool)
        for i in range(k):
            t = c.choice("%s.%d" % (n, i), left)
            left = [x for x in left if x != t and tagof(x) != tagof(t)]
            out.append(t)
        return out
    return g


def recursive(c, n):
    t = c.choice(n, ["int", "long", "string"])
    nxt = c.choice(n + ".next", [["null", "R"], ["R", "null"], ["string", "null", "R"], {"type": "array", "items": "R"}])
    fs = [{"name": "v", "type": t}, {"name": "next", "type": nxt}]
    if c.choice(n + ".flip", [False, True]):
        fs.reverse()
    return {"type": "record", "name": "R", "fields": fs}


UP = ["null", "int", "double", "string", {"type": "array", "items": "int"}, {"type": "array", "items": "double"}, {"type": "fixed", "name": "F", "size": 3}]
U2 = ["null", "int", "double", "string"]


def pair(name, ga, gb, both=False, **kw):
    """accepts agrees with the reference relation, in both directions; equal types accept each other"""
    def setup():
        return None

    def fn(c, env):
        a, b = ga(c, "A"), gb(c, "B")
        x, y = parse(a), parse(b)
        r = x.accepts(y)
        c.observe("accepts", r)
        c.check(c.same(r, acc(c, a, b)) if isinstance(r, bool) else r == acc(c, a, b), name + ": accepts is the reference relation")
        if both:
            r2 = y.accepts(x)
            c.check(r2 == acc(c, b, a), name + ": accepts is the reference relation (converse)")
        if x == y:
            c.check(r, name + ": equal types accept each other")
    return Job(name, fn, setup, **kw)


def reflexive(name, g, **kw):
    def setup():
        return None

    def fn(c, env):
        a = g(c, "A")
        x, y = parse(a), parse(a)
        c.check(x.accepts(y), name + ": accepts itself")
        c.check(x == y, name + ": equals itself")
    return Job(name, fn, setup, **kw)


def transitive(name, g, **kw):
    def setup():
        return None

    def fn(c, env):
        a, b = g(c, "A"), g(c, "B")
        x, y = parse(a), parse(b)
        if not x.accepts(y):
            return
        z = parse(g(c, "C"))
        if y.accepts(z):
            c.check(x.accepts(z), name + ": transitive")
    return Job(name, fn, setup, **kw)


def functions(name, **kw):
    """function types: contravariant in parameters, covariant in the result; distinct from values"""
    def setup():
        return None

    def fn(c, env):
        from titus.datatype import FcnType
        def one(n):
            k = c.choice(n + ".arity", [0, 1, 2])
            ps = [c.choice("%s.%d" % (n, i), ["int", "double", "string"]) for i in range(k)]
            r = c.choice(n + ".ret", ["int", "double", ["null", "int"]])
            return ps, r, FcnType([parse(p) for p in ps], parse(r))
        ps, r, f = one("f")
        qs, s, g = one("g")
        want = len(ps) == len(qs) and all([acc(c, q, p) for p, q in zip(ps, qs)]) and acc(c, r, s)
        c.check(f.accepts(g) == want, name + ": contravariant parameters, covariant result")
        c.check((f == g) == (ps == qs and r == s), name + ": equality")
        v = parse(c.choice("v", ["int", "null", ["int", "string"], {"type": "array", "items": "int"}]))
        c.check(not f.accepts(v) and not v.accepts(f), name + ": functions and values do not accept each other")
    return Job(name, fn, setup, **kw)


def exceptions(name, **kw):
    def setup():
        return None

    def fn(c, env):
        from titus.datatype import ExceptionType
        t = leaf(c, "T")
        x = parse(c.choice("w", [t, {"type": "array", "items": t}, [t]]))
        e = ExceptionType()
        c.check(e.accepts(ExceptionType()), name + ": accepts itself")
        c.check(not x.accepts(e) and not e.accepts(x), name + ": no value type accepts or is accepted by it")
    return Job(name, fn, setup, **kw)


# ------------------------------------------------------------------ values

def plain(c, a, j):
    """JSON encoding j (of type a) without its union tags, defaults filled in"""
    if isinstance(a, list):
        if j is None:
            return None
        (tag, v), = j.items()
        t, = [x for x in a if tagof(x) == tag]
        return plain(c, t, v)
    k = kind(a)
    if k == "array":
        return [plain(c, a["items"], x) for x in j]
    if k == "map":
        return dict((n, plain(c, a["values"], x)) for n, x in j.items())
    if k == "record":
        return dict((f["name"], plain(c, f["type"], j[f["name"]] if f["name"] in j else f["default"])) for f in a["fields"])
    return j


def content(c, a, b, v):
    """the plain content of value v of type b seen as a: records restricted to a's fields (defaults added)"""
    if isinstance(b, list):
        if v is None:
            return None
        (tag, x), = v.items()
        t, = [y for y in b if tagof(y) == tag]
        return content(c, a, t, x)
    if isinstance(a, list):
        # which alternative takes it does not matter for the content, except for record fields
        ts = [x for x in a if kind(x) == kind(b) and acc(c, x, b) is not False]
        a = ts[0] if ts else b
    k = kind(b)
    if k == "array":
        return [content(c, a["items"], b["items"], x) for x in v]
    if k == "map":
        return dict((n, content(c, a["values"], b["values"], x)) for n, x in v.items())
    if k == "record":
        fb = dict((f["name"], f["type"]) for f in b["fields"])
        return dict((f["name"], content(c, f["type"], fb[f["name"]], v[f["name"]]) if f["name"] in fb else f["default"]) for f in a["fields"])
    return v


def strips(a, b):
    """somewhere a non-union type of a meets a union of b"""
    if isinstance(b, list) and not isinstance(a, list):
        return True
    if isinstance(b, list) or isinstance(a, list):
        bs = b if isinstance(b, list) else [b]
        as_ = a if isinstance(a, list) else [a]
        return any([strips(x, y) for y in bs for x in as_ if kind(x) == kind(y)])
    k = kind(b)
    if k != kind(a):
        return False
    if k == "array":
        return strips(a["items"], b["items"])
    if k == "map":
        return strips(a["values"], b["values"])
    if k == "record":
        fb = dict((f["name"], f["type"]) for f in b["fields"])
        return any([strips(f["type"], fb[f["name"]]) for f in a["fields"] if f["name"] in fb])
    return False


def sound(name, ga, gb, **kw):
    """if A accepts B, every value of B encodes as JSON of A with the same content, and decodes again"""
    def setup():
        return None

    def fn(c, env):
        from titus.datatype import jsonEncoder, jsonDecoder
        from titus.errors import AvroException
        a, b = ga(c, "A"), gb(c, "B")
        x, y = parse(a), parse(b)
        if not x.accepts(y):
            return
        v = gen(c, "v", b, B(arr=1, keys="k", slen=1))
        if c.known("accept-union-as-alternative", strips(a, b)):
            return
        before = copy_tree(v)
        try:
            j = jsonEncoder(x, v)
        except AvroException:
            return c.fail(name + ": a value of an accepted type cannot be encoded")
        try:
            d = jsonDecoder(x, j)
        except AvroException:
            return c.fail(name + ": the encoding of a value of an accepted type cannot be decoded")
        c.check(c.same(plain(c, a, j), textual(content(c, a, b, before))), name + ": same content")
        c.check(c.same(plain(c, a, jsonEncoder(x, d)), plain(c, a, j)), name + ": decoding gives the same value")
        c.check(c.same(v, before), name + ": value unmodified")
    return Job(name, fn, setup, **kw)


def textual(v):
    if isinstance(v, dict):
        return dict((k, textual(x)) for k, x in v.items())
    if isinstance(v, list):
        return [textual(x) for x in v]
    if isinstance(v, bytes):
        from titus.datatype import bytesToString
        return bytesToString(v)
    return v


def jobs(tier):
    deep = tier == "thorough"
    yield pair("prim-prim", prim, prim, both=True)
    yield pair("named-named", named, named, both=True)
    yield pair("leaf-container", leaf, container(leaf), both=True)
    yield pair("container-container", container(leaf), container(leaf))
    yield pair("container2", container(container(small)), container(container(small)))
    yield pair("record-record", record, record, limit=600)
    yield pair("record-leaf", record, leaf, both=True)
    yield pair("array-record", container(record1), container(record1), both=True)
    u = union(UP)
    yield pair("union-union", u, u, limit=600)
    yield pair("union-leaf", u, leaf, both=True)
    yield pair("union-container", u, container(small), both=True)
    yield pair("container-union", container(union(U2)), container(union(U2)))
    yield pair("union3", union(U2, (3,)), union(U2, (1, 2)), both=True)
    yield pair("recursive", recursive, recursive, both=True)
    yield functions("functions")
    yield exceptions("exceptions")
    yield reflexive("reflexive.leaf", leaf)
    yield reflexive("reflexive.container", container(union(UP)))
    yield reflexive("reflexive.record", record)
    yield reflexive("reflexive.recursive", recursive)
    yield transitive("transitive.leaf", leaf)
    yield transitive("transitive.named", named, limit=400)
    yield transitive("transitive.union", union(U2), limit=600)
    yield transitive("transitive.container", container(union(["null", "int", "double"])), limit=600)
    yield transitive("transitive.record", record1)
    yield transitive("transitive.recursive", recursive, limit=400)
    yield sound("sound.leaf", sleaf, sleaf)
    yield sound("sound.container", container(sleaf), container(sleaf))
    yield sound("sound.union", union(UP), union(UP), limit=600)
    yield sound("sound.union-leaf", union(["null", "int", "long", "float", "double", "string", "bytes"], (2,)), prim, limit=400)
    yield sound("sound.container-union", container(union(["null", "int", "double"])), container(union(["null", "int", "double"])))
    yield sound("sound.leaf-union", sleaf, union(U2))
    yield sound("sound.record", record, record, limit=600)
    if deep:
        yield sound("sound.long-union", union(["int", "long", "float", "double", "string"], (3,)), union(["int", "long", "float"], (1, 2)), limit=800)
        yield pair("union3-union3", union(UP, (3,)), union(UP, (3,)), limit=850)
        yield pair("container3", container(container(container(small))), container(container(container(small))), limit=600)
