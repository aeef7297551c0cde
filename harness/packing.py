"""C33 binary pack and unpack (titus/genpy.py pack, unpackOne, unpack, unpackElse; titus/pfaast.py BinaryFormatter)."""
import struct

from harness.lib import *
from harness.bytesenum import codes, samebytes, repr2

INTS = {"byte": (1, False, "int"), "unsigned byte": (1, True, "int"), "short": (2, False, "int"), "unsigned short": (2, True, "int"), "int": (4, False, "int"), "unsigned int": (4, True, "long"),
        "long": (8, False, "long"), "unsigned long": (8, True, "double")}
ALIAS = {"byte": ["int8", " byte "], "unsigned byte": ["unsigned int8", "unsigned  byte", "unsignedbyte"], "short": ["int16"], "unsigned short": ["unsigned int16"], "int": ["int32", "  int"], "unsigned int": ["unsigned int32"],
         "long": ["long long", "int64", "long  long"], "unsigned long": ["unsigned long long", "unsigned int64"]}
ORDERS = {"": False, "<": True, ">": False, "!": False, "little ": True, "big ": False, "network ": False, "< ": True, "little": True}
MARK = {"log": [{"string": "else"}]}


def spellings(base, deep):
    """(format, little endian)"""
    out = []
    for i, w in enumerate([base] + ALIAS.get(base, [])):
        out.append((w, False))
        if INTS.get(base, (8,))[0] > 1:
            for j, (o, le) in enumerate(ORDERS.items()):
                if o and (deep or i < 2 or (i + j) % 4 == 0):
                    out.append((o + w.lstrip(), le))
    return out


def fits(c, v, n, unsigned):
    return c.and_(v >= 0, v < 256 ** n) if unsigned else c.and_(v >= -(256 ** n) // 2, v < 256 ** n // 2)


def number(c, bs, unsigned, little):
    v = 0
    for b in (bs[::-1] if little else bs):
        v = v * 256 + b
    return v if unsigned else c.ite(v >= 256 ** len(bs) // 2, v - 256 ** len(bs), v)


def pack_int(base, deep):
    n, unsigned, t = INTS[base]
    sp = spellings(base, deep)

    def setup():
        class Es(object):
            pass
        e = Es()
        e.all = dict((f, fn_engine({"x": t}, "bytes", {"pack": [{f: "input.x"}]})) for f, _ in sp)
        return e

    def fn(c, env):
        k = c.choice("format", list(range(len(sp))))
        f, little = sp[k]
        if t == "double":
            x = c.choice("value", [0.0, 1.0, 255.0, 256.0, 65537.0, 9007199254740991.0, 9223372036854775808.0, 18446744073709549568.0, 4.75, -0.5, -1.0, 18446744073709551616.0, float("inf"), float("nan")])
            ok = x == x and -1 < x < 2.0 ** 64
            v = int(x) if ok else None
        else:
            x = v = c.int("x") if t == "int" else c.long("x")
            ok = fits(c, x, n, unsigned)
        if not ok:
            if c.known("pack-range", True):
                return
            got = act(env.all[f], {"x": x})
            c.check(got[0] == "err", base + ": a value that does not fit is a runtime error")
            return
        got = act(env.all[f], {"x": x})
        c.observe("pack", got)
        c.check(got[0] == "ok" and isinstance(got[1], bytes) and len(got[1]) == n, "pack %s: %d bytes" % (base, n))
        c.check(number(c, codes(got[1]), unsigned, little) == v, "pack %s: its digits in base 256" % base)
    return Job("pack " + base, fn, setup, bound="all %s values, %d spellings of the format" % (t, len(sp)))


def unpack_engine(fields, then_types, items):
    """Engine unpacking input.b; then gives the fields as a record, else null."""
    rec = {"type": "record", "name": "Got", "fields": [{"name": n, "type": t} for n, t in zip(fields, then_types)]}
    return fn_engine({"b": "bytes"}, [rec, "null"], {"unpack": "input.b", "format": [{n: f} for n, f in zip(fields, items)], "then": [{"new": dict((n, n) for n in fields), "type": rec}], "else": [MARK, None]})


def run(env, b):
    """('then', fields) or ('else',), with what the else branch logged."""
    e = env.fresh()
    log = []
    e.log = lambda m, ns: log.append(m)
    got = outcome(e.action, {"b": b}, False)
    if got[0] != "ok":
        return got, log
    return (("else",) if got[1] is None else ("then", got[1]["Got"] if "Got" in got[1] and len(got[1]) == 1 else got[1])), log


def unpack_int(base, deep):
    n, unsigned, t = INTS[base]
    sp = spellings(base, deep)

    def setup():
        class Es(object):
            pass
        e = Es()
        e.all = dict((f, unpack_engine(["v"], [t], [f])) for f, _ in sp)
        return e

    def fn(c, env):
        f, little = sp[c.choice("format", list(range(len(sp))))]
        k = c.choice("len", sorted(set([0, n - 1, n, n + 1])))
        b = c.bytes("b", k, k) if c.choice("repr", ["bytes", "text"]) == "bytes" else c.str("b", k, [(0, 255)], minlen=k)
        got, log = run(env.all[f], b)
        c.check(got[0] == ("then" if k == n else "else"), "unpack %s: taken exactly when %d bytes are given" % (base, n))
        c.check(log == ([] if k == n else [["else"]]), "unpack %s: only one branch runs" % base)
        if k == n:
            want = number(c, codes(b), unsigned, little)
            v = got[1]["v"]
            if t == "double":
                c.check(isinstance(v, float), "unpack unsigned long: a double")
                c.check(c.or_(v == want, want > 2 ** 53), "unpack %s: value" % base)
            else:
                c.check(c.and_(isinstance(v, int), not isinstance(v, bool), v == want), "unpack %s: value" % base)
    return Job("unpack " + base, fn, setup, bound="all byte strings of length 0, %d, %d, %d" % (n - 1, n, n + 1))


FLOATS = [0.0, -0.0, 1.0, -2.5, 0.125, 65504.0, 3.4028234663852886e38, 1.401298464324817e-45, float("inf"), float("-inf")]


def floats(base, deep):
    n, ch = (4, "f") if base == "float" else (8, "d")
    sp = [(o + w, le) for w in (base, "float" + str(n * 8)) for o, le in ORDERS.items()]

    def setup():
        class Es(object):
            pass
        e = Es()
        e.p = dict((f, fn_engine({"x": base}, "bytes", {"pack": [{f: "input.x"}]})) for f, _ in sp)
        e.u = dict((f, unpack_engine(["v"], [base], [f])) for f, _ in sp)
        return e

    def fn(c, env):
        f, little = sp[c.choice("format", list(range(len(sp))))]
        how = c.choice("value", list(range(len(FLOATS))) + ["any"] + ([len(FLOATS)] if base == "float" else []))
        if how == "any":
            x = c.real("x") if base == "double" else c.int("x", -16777216, 16777216)
        elif how < len(FLOATS):
            x = FLOATS[how]
        if base == "float" and how == len(FLOATS):
            if c.known("pack-range", True):
                return
            c.check(act(env.p[f], {"x": 1e300})[0] in ("ok", "err"), "pack float: a value out of range is no host error")
            return
        want = struct.pack(("<" if little else ">") + ch, x)
        got = act(env.p[f], {"x": x})
        samebytes(c, got, ("ok", list(want)), "pack " + base)
        back, log = run(env.u[f], want)
        c.check(back[0] == "then", "unpack %s: taken" % base)
        c.check(isinstance(back[1]["v"], float), "unpack %s: a %s" % (base, base))
        c.check(c.same(back[1]["v"], x * 1.0), "unpack %s: what was packed" % base)
        for short in (want[:-1], want + b"\0"):
            r, log = run(env.u[f], short)
            c.check(r[0] == "else", "unpack %s: other lengths are refused" % base)
    return Job(base + " there and back", fn, setup, bound="edge values and all %s" % ("numbers exact in single precision up to 2^24" if base == "float" else "reals"))


# ---------------------------------------------------------------- byte strings
def raws(deep):
    K = 3 if not deep else 4

    def setup():
        class Es(object):
            pass
        e = Es()
        e.p = dict((f, fn_engine({"x": "bytes"}, "bytes", {"pack": [{f: "input.x"}]})) for f in PF)
        e.u = dict((f, unpack_engine(["v"], ["bytes"], [f])) for f in PF if f not in ("raw", " raw "))
        e.u2 = dict((f, unpack_engine(["v", "w"], ["bytes", "bytes"], [f, g])) for f in ("terminated", "prefixed", "raw 2") for g in ("raw 1",))
        e.u3 = dict((f, unpack_engine(["w", "v"], ["int", "bytes"], ["byte", f])) for f in ("terminated", "prefixed", "raw 2"))
        return e
    PF = {"raw": "raw", " raw ": "raw", "raw 0": 0, "raw 2": 2, "raw2": 2, "raw 3 ": 3, "null terminated": "t", "terminated": "t", "nullterminated": "t", "length prefixed": "p", "prefixed": "p", "lengthprefixed": "p"}

    def packs(c, env):
        f = c.choice("format", list(PF))
        k = PF[f]
        x = repr2(K)(c, "x")
        xs = codes(x)
        got = act(env.p[f], {"x": x})
        want = ("ok", xs) if k == "raw" else ("ok", xs + [0]) if k == "t" else ("ok", [len(xs)] + xs) if k == "p" else ("ok", xs) if len(xs) == k else ("err", 3000)
        samebytes(c, got, want, "pack " + f.strip())

    def split(c, k, bs):
        """(field, rest) or None"""
        if k == "t":
            for i in range(len(bs)):
                if bs[i] == 0:
                    return bs[:i], bs[i + 1:]
            return None
        if k == "p":
            if not bs:
                return None
            for n in range(len(bs)):
                if bs[0] == n:
                    return bs[1:n + 1], bs[n + 1:]
            return None
        return (bs[:k], bs[k:]) if len(bs) >= k else None

    def judge(c, got, log, fields, label):
        c.check(got[0] == ("else" if fields is None else "then"), label + ": taken exactly when the bytes match the format")
        c.check(log == ([["else"]] if fields is None else []), label + ": only one branch runs")
        if fields is not None:
            for n, w in fields.items():
                v = got[1][n]
                if isinstance(w, list):
                    v = codes(v)
                    c.check(len(v) == len(w), label + ": length")
                    c.check(c.and_(True, *[a == b for a, b in zip(v, w)]), label + ": bytes")
                else:
                    c.check(v == w, label + ": value")

    def unpacks(c, env):
        shape = c.choice("shape", ["one", "two", "after"])
        f = c.choice("format", [x for x in PF if x not in ("raw", " raw ")] if shape == "one" else ["terminated", "prefixed", "raw 2"])
        k = PF[f]
        b = repr2(K + 1)(c, "b")
        bs = codes(b)
        if shape == "one":
            got, log = run(env.u[f], b)
            s = split(c, k, bs)
            judge(c, got, log, {"v": s[0]} if s is not None and not s[1] else None, "unpack " + f.strip())
        elif shape == "two":
            got, log = run(env.u2[f], b)
            s = split(c, k, bs)
            judge(c, got, log, {"v": s[0], "w": s[1]} if s is not None and len(s[1]) == 1 else None, "unpack %s then raw" % f)
        else:
            got, log = run(env.u3[f], b)
            s = split(c, k, bs[1:]) if bs else None
            judge(c, got, log, {"w": number(c, bs[:1], False, False), "v": s[0]} if s is not None and not s[1] else None, "unpack byte then %s" % f)

    def toolong(c, env):
        n = c.choice("n", [254, 255, 256, 257])
        x = b"a" * n if c.choice("repr", ["bytes", "text"]) == "bytes" else "a" * n
        got = act(env.p["prefixed"], {"x": x})
        samebytes(c, got, ("ok", [n] + [97] * n) if n <= 255 else ("err", 3001), "pack prefixed")
        if n <= 255:
            r, log = run(env.u["prefixed"], got[1])
            judge(c, r, log, {"v": [97] * n}, "unpack prefixed")
    yield Job("pack byte strings", packs, setup, bound="byte strings up to %d bytes, as bytes and as text" % K)
    yield Job("unpack byte strings", unpacks, setup, bound="byte strings up to %d bytes, as bytes and as text" % (K + 1))
    yield Job("prefixed limit", toolong, setup, bound="254 to 257 bytes")


# ---------------------------------------------------------------- one byte and no byte
def small():
    def setup():
        class Es(object):
            pass
        e = Es()
        e.pb = fn_engine({"x": "boolean"}, "bytes", {"pack": [{"boolean": "input.x"}]})
        e.pp = fn_engine({"x": "null"}, "bytes", {"pack": [{"pad": "input.x"}]})
        e.ub = unpack_engine(["v"], ["boolean"], [" boolean"])
        e.up = unpack_engine(["v"], ["null"], ["pad "])
        return e

    def fn(c, env):
        x = c.bool("x")
        samebytes(c, act(env.pb, {"x": x}), ("ok", [c.ite(x, 1, 0)]), "pack boolean")
        samebytes(c, act(env.pp, {"x": None}), ("ok", [0]), "pack pad")
        b = c.bytes("b", 2)
        bs = codes(b)
        got, log = run(env.ub, b)
        c.check(got[0] == ("then" if len(bs) == 1 else "else"), "unpack boolean: one byte")
        if len(bs) == 1:
            c.check(isinstance(got[1]["v"], bool), "unpack boolean: a boolean")
            c.check(c.eq(got[1]["v"], bs[0] != 0), "unpack boolean: false for zero, true for the rest")
        got, log = run(env.up, b)
        c.check(got[0] == ("then" if len(bs) == 1 else "else"), "unpack pad: one byte")
        if len(bs) == 1:
            c.check(got[1]["v"] is None, "unpack pad: null")
    return Job("boolean and pad", fn, setup)


# ---------------------------------------------------------------- several items in one document, there and back
ITEMS = {"pad": "null", "boolean": "boolean", "byte": "int", "unsigned byte": "int", "short": "int", "little unsigned short": "int", "int": "int", "<int": "int", "little unsigned int": "long", "long": "long", "<long": "long",
         "raw 2": "bytes", "null terminated": "bytes", "length prefixed": "bytes"}


def roundtrips(deep):
    names = list(ITEMS)
    combos = [(a, b) for i, a in enumerate(names) for j, b in enumerate(names) if deep or (i * 5 + j * 3) % 7 == 0]

    def setup():
        class Es(object):
            pass
        e = Es()
        e.all = []
        for a, b in combos:
            rec = {"type": "record", "name": "Got", "fields": [{"name": "a", "type": ITEMS[a]}, {"name": "b", "type": ITEMS[b]}, {"name": "z", "type": "int"}]}
            e.all.append(fn_engine({"x": ITEMS[a], "y": ITEMS[b]}, [rec, "null"],
                         {"unpack": {"pack": [{a: "input.x"}, {b: "input.y"}, {"byte": 77}]}, "format": [{"a": a}, {"b": b}, {"z": "byte"}], "then": [{"new": {"a": "a", "b": "b", "z": "z"}, "type": rec}], "else": [None]}))
        return e

    def value(c, n, f):
        t = ITEMS[f]
        if t == "null":
            return None
        if t == "boolean":
            return c.bool(n)
        if t == "bytes":
            return c.bytes(n, 2, 2) if f == "raw 2" else bytes([c.choice(n + ".a", [1, 65, 255]), c.choice(n + ".b", [1, 128])][:c.choice(n + ".len", [0, 1, 2])])
        w = INTS[f.replace("little ", "").replace("<", "")]
        x = c.int(n) if t == "int" else c.long(n)
        c.assume(fits(c, x, w[0], w[1]))
        return x

    def fn(c, env):
        k = c.choice("items", list(range(len(combos))))
        a, b = combos[k]
        x, y = value(c, "x", a), value(c, "y", b)
        got = act(env.all[k], {"x": x, "y": y})
        c.check(got[0] == "ok" and got[1] is not None, "%s, %s: what was packed unpacks" % (a, b))
        r = got[1]["Got"] if "Got" in got[1] else got[1]
        c.check(c.same(r["a"], x), "there and back: first value")
        c.check(c.same(r["b"], y), "there and back: second value")
        c.check(r["z"] == 77, "trailing value")
    return Job("there and back", fn, setup, limit=200, bound="two items out of %d, all values that fit; a null-terminated string holds no zero byte" % len(ITEMS))


# ---------------------------------------------------------------- formats and types
BAD = ["", "integer", "padding", "raw", "int 32", "unsigned", "unsigned float", "int65", "rawx", "raw 2x", "raw -1", "little raw", "unsigned int641", "littel int", "<>int", "boolean8", "float16", "double32", "doubles", "prefixed 3", "null", "long long long", "x", "i", "little byte", "int16t", "int int"]
KINDS = {"pad": "null", "boolean": "boolean", "byte": "int", "unsigned byte": "int", "short": "int", "unsigned short": "int", "int": "int", "unsigned int": "long", "long": "long", "unsigned long": "double", "float": "float", "double": "double", "raw": "bytes", "raw 2": "bytes", "terminated": "bytes", "prefixed": "bytes"}
WIDER = {"null": ["null"], "boolean": ["boolean"], "int": ["int"], "long": ["int", "long"], "float": ["int", "long", "float"], "double": ["int", "long", "float", "double"], "bytes": ["bytes"]}


def formats(c):
    from titus.errors import PFASemanticException
    what = c.choice("what", ["bad unpack", "bad pack", "pack type", "unpack type", "shadow", "leak", "else type"])

    def build(doc):
        try:
            make_engine(doc)
            return True
        except PFASemanticException:
            return False

    def doc(action, out="null", inp="bytes"):
        return {"input": inp, "output": out, "action": action}
    if what == "bad unpack":
        f = c.choice("f", BAD)
        c.check(not build(doc({"unpack": "input", "format": [{"v": f}], "then": [None]})), "unpack: unknown format refused")
    elif what == "bad pack":
        f = c.choice("f", [x for x in BAD if x != "raw"])
        t = c.choice("t", ["int", "bytes", "double", "null"])
        c.check(not build(doc({"pack": [{f: "input"}]}, "bytes", t)), "pack: unknown format refused")
    elif what == "pack type":
        f = c.choice("f", list(KINDS))
        t = c.choice("t", ["null", "boolean", "int", "long", "float", "double", "bytes", "string", {"type": "fixed", "name": "Fx", "size": 2}, ["int", "null"]])
        ok = build(doc({"pack": [{f: "input"}]}, "bytes", t))
        c.check(ok == (isinstance(t, str) and t in WIDER[KINDS[f]]), "pack: takes exactly the values of its type")
    elif what == "unpack type":
        f = c.choice("f", [x for x in KINDS if x != "raw"])
        t = c.choice("t", ["null", "boolean", "int", "long", "float", "double", "bytes", "string"])
        ok = build(doc({"unpack": "input", "format": [{"v": f}], "then": ["v"], "else": [{"type": t, "value": {"null": None, "boolean": True, "bytes": "a", "string": "a"}.get(t, 1)}]}, t))
        c.check(ok == (KINDS[f] in WIDER.get(t, [t])), "unpack: gives values of its type")
    elif what == "shadow":
        order = c.choice("order", ["let first", "twice", "input"])
        if order == "let first":
            d = doc([{"let": {"v": 1}}, {"unpack": "input", "format": [{"v": "int"}], "then": [None]}])
        elif order == "twice":
            d = doc([{"unpack": "input", "format": [{"v": "byte"}, {"v": "byte"}], "then": [None]}])
        else:
            d = doc([{"unpack": "input", "format": [{"input": "byte"}], "then": [None]}])
        c.check(not build(d), "unpack: names are new")
    elif what == "leak":
        where = c.choice("where", ["after", "else", "then"])
        u = {"unpack": "input", "format": [{"v": "int"}], "then": [{"+": ["v", 1]}], "else": [{"+": ["v", 1]} if where == "else" else 0]}
        c.check(build(doc([u] + ([{"+": ["v", 1]}] if where == "after" else [0]), "int")) == (where == "then"), "unpack: names live in the then branch only")
    else:
        t = c.choice("in", ["bytes", "string", "int"])
        c.check(build(doc({"unpack": "input", "format": [{"v": "int"}], "then": [None]}, "null", t)) == (t == "bytes"), "unpack: takes bytes")


def noelse():
    def setup():
        return fn_engine({"b": "bytes"}, "int", None, action=[{"let": {"n": 0}}, {"unpack": "input.b", "format": [{"x": "byte"}, {"y": "unsigned byte"}], "then": [{"set": {"n": {"+": [{"*": ["x", 1000]}, "y"]}}}]}, {"+": ["n", 1]}])

    def fn(c, env):
        b = repr2(3)(c, "b")
        bs = codes(b)
        want = number(c, bs[:1], False, False) * 1000 + bs[1] + 1 if len(bs) == 2 else 1
        agree(c, act(env, {"b": b}), ("ok", want), "unpack without else")
    return Job("unpack without else", fn, setup)


def jobs(tier):
    deep = tier == "thorough"
    for base in INTS:
        yield pack_int(base, deep)
        yield unpack_int(base, deep)
    yield floats("float", deep)
    yield floats("double", deep)
    for j in raws(deep):
        yield j
    yield small()
    yield roundtrips(deep)
    yield Job("formats and types", formats, None, limit=200)
    yield noelse()
