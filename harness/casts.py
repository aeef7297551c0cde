"""Conversions cast.* and the cast special form's numeric rounding (lib/cast.py)."""
import io
import json
import math
from harness.lib import *

S, A = "string", lambda t: {"type": "array", "items": t}
EN = {"type": "enum", "name": "Color", "symbols": ["red", "green", "blue"]}


def wrap(c, x, lo, n):
    """The integer congruent to x modulo n in [lo, lo + n)."""
    return (x - lo) % n + lo


def near(lo, hi, err):
    """Rounding to the closest integer, halves up, in range [lo, hi]."""
    def oracle(c, x):
        if x != x or x >= float(hi) + 0.5 or x < float(lo) - 0.5:
            raise Err(err)
        return x
    return oracle


def closest(c, got, want, label):
    c.observe(label, got)
    c.check(got[0] == want[0], label + ": outcome kind")
    if got[0] != "ok":
        c.check(got[1] == want[1], label + ": error code")
        return
    r, x = got[1], want[1]
    c.check(isinstance(r, int) and not isinstance(r, bool), label + ": an integer")
    lo = math.floor(x)
    c.check(r == (lo if x - lo < 0.5 else lo + 1), label + ": the closest integer, halves up")


def jobs(tier):
    deep = tier == "thorough"
    I = lambda *xs: ["input." + x for x in xs]
    XB = {"x": "long", "bits": "int"}
    gb = {"bits": lambda c, n: c.choice(n, [-1, 0, 1, 2, 3, 8, 31, 32, 33, 62, 63, 64, 65] if not deep else list(range(-1, 67)))}

    def signed(c, x, bits):
        if bits < 2 or bits > 64:
            raise Err(17000)
        return wrap(c, x, -(2 ** (bits - 1)), 2 ** bits)

    def unsigned(c, x, bits):
        if bits < 1 or bits > 63:
            raise Err(17010)
        return wrap(c, x, 0, 2 ** bits)
    yield F("cast.signed", XB, "long", {"cast.signed": I("x", "bits")}, signed, gens=gb)
    yield F("cast.unsigned", XB, "long", {"cast.unsigned": I("x", "bits")}, unsigned, gens=gb)

    def ranged(lo, hi, err):
        def f(c, x):
            if x < lo or x > hi:
                raise Err(err)
            return x
        return f
    yield F("cast.int of long", {"x": "long"}, "int", {"cast.int": I("x")}, ranged(INT_MIN, INT_MAX, 17020))
    yield F("cast.int of int", {"x": "int"}, "int", {"cast.int": I("x")}, lambda c, x: x)
    yield F("cast.long of long", {"x": "long"}, "long", {"cast.long": I("x")}, lambda c, x: x)
    anyd = {"x": lambda c, n: c.double(n)}
    rnd = dict(mode="fp", cmp=closest, gens=anyd, check_type=False)
    for t in ("float", "double"):
        yield F("cast.int of " + t, {"x": t}, "int", {"cast.int": I("x")}, near(INT_MIN, INT_MAX, 17020), **rnd)
        yield F("cast.long of " + t, {"x": t}, "long", {"cast.long": I("x")}, near(LONG_MIN, LONG_MAX, 17030), **rnd)
    yield F("m.round of double", {"x": "double"}, "long", {"m.round": I("x")},
            lambda c, x: near(LONG_MIN, LONG_MAX, 27191)(c, x), **rnd)
    for fn in ("float", "double"):
        yield F("cast.%s of long" % fn, {"x": "int"}, fn, {"cast." + fn: I("x")}, lambda c, x: x * 1.0,
                cmp=lambda c, got, want, l: c.check(c.and_(got[0] == "ok", isinstance(got[1], float), got[1] == want[1]), l + ": same number, as a float"))
        yield F("cast.%s of double" % fn, {"x": "double"}, fn, {"cast." + fn: I("x")}, lambda c, x: x, gens=anyd, mode="fp",
                cmp=lambda c, got, want, l: c.check(c.and_(got[0] == "ok", isinstance(got[1], float), c.same(got[1], want[1])), l + ": unchanged"))

    num = lambda c, n: c.int(n, -4, 4)
    for fn, ret, one, zero, err in (("Boolean", "boolean", True, False, 17060), ("Int", "int", 1, 0, 17070), ("Long", "long", 1, 0, 17080),
                                    ("Float", "float", 1.0, 0.0, 17090), ("Double", "double", 1.0, 0.0, 17100)):
        def string(c, x, d, oor, one=one, zero=zero, err=err):
            for i in range(len(d)):
                for j in range(i):
                    if d[i] == d[j]:
                        raise Err(err)
            out = [one if x == y else zero for y in d]
            return out + [zero if any([x == y for y in d]) else one] if oor else out

        def integer(c, x, lo, hi, oor, one=one, zero=zero):
            out = []
            i = lo
            while i < hi:
                out.append(one if x == i else zero)
                i = i + 1
            return out + [one if x < lo or x >= hi else zero] if oor else out
        name = "cast.fanout" + fn
        g1 = {"x": lambda c, n: c.str(n, 2, "abc"), "d": lambda c, n: [c.str("%s.%d" % (n, i), 1, "abc", lens=[1]) for i in range(c.choice(n + ".n", [0, 1, 2]))]}
        yield F(name + " string", {"x": S, "d": A(S), "oor": "boolean"}, A(ret), {name: I("x", "d", "oor")}, string, gens=g1)
        yield F(name + " int", {"x": "int", "lo": "int", "hi": "int", "oor": "boolean"}, A(ret), {name: I("x", "lo", "hi", "oor")}, integer,
                gens={"lo": lambda c, n: c.choice(n, [-2, 0, 1]), "hi": lambda c, n: c.choice(n, [-1, 1, 3])})
        yield F(name + " enum", {"x": EN}, A(ret), {name: I("x")}, lambda c, x, one=one, zero=zero: [one if x == s else zero for s in EN["symbols"]])

    # serializations carry the value: a decoder gets it back
    REC = {"type": "record", "name": "Pair", "fields": [{"name": "n", "type": "long"}, {"name": "t", "type": A("string")}]}
    UN = ["null", "int", "string"]
    NEST = {"type": "record", "name": "Holder", "fields": [{"name": "u", "type": UN}, {"name": "e", "type": EN}, {"name": "m", "type": {"type": "map", "values": "int"}}]}

    def plain(v, t):
        """The value the avro package hands back for v of type t (unions untagged)."""
        if isinstance(t, list):
            if v is None:
                return None
            (tag, x), = v.items()
            u, = [u for u in t if (u if isinstance(u, str) else u.get("name", u["type"])) == tag]
            return plain(x, u)
        if t == "bytes":
            return bytes([ord(ch) for ch in v])
        if isinstance(t, dict):
            if t["type"] == "array":
                return [plain(x, t["items"]) for x in v]
            if t["type"] == "map":
                return dict((k, plain(x, t["values"])) for k, x in v.items())
            if t["type"] == "record":
                return dict((f["name"], plain(v[f["name"]], f["type"])) for f in t["fields"])
        return v

    def avro(label, t, b=None, gens=None):
        def cmp(c, got, want, l):
            import avro.schema
            from avro.io import BinaryDecoder, DatumReader
            c.check(got[0] == "ok", l + ": outcome kind")
            if got[0] != "ok":
                return
            c.check(isinstance(got[1], (str, bytes)), l + ": bytes value")
            data = got[1] if isinstance(got[1], bytes) else bytes([ord(ch) for ch in got[1]])
            back = DatumReader(avro.schema.Parse(json.dumps(t))).read(BinaryDecoder(io.BytesIO(data)))
            c.observe(l, back)
            c.check(c.same(back, want[1]), l + ": decodes to the value")
        return F("cast.avro " + label, {"x": t}, "bytes", {"cast.avro": I("x")}, lambda c, x: plain(x, t), b=b, gens=gens, cmp=cmp, check_type=False)

    def cjson(label, t, b=None, gens=None):
        def cmp(c, got, want, l):
            c.check(got[0] == "ok", l + ": outcome kind")
            if got[0] == "ok":
                back = json.loads(got[1])
                c.observe(l, back)
                c.check(c.same(back, want[1]), l + ": parses to the value")
        return F("cast.json " + label, {"x": t}, "string", {"cast.json": I("x")}, lambda c, x: x, b=b, gens=gens, cmp=cmp, check_type=False)
    for mk in (avro, cjson):
        yield mk("boolean", "boolean")
        yield mk("int", "int")
        yield mk("long", "long")
        yield mk("double", "double")
        yield mk("string", "string")
        yield mk("enum", EN)
        yield mk("array", A("int"), b=B(arr=2))
        yield mk("map", {"type": "map", "values": "int"}, b=B(keys="ab"))
        yield mk("record", REC, b=B(arr=1, slen=1))
        yield mk("union", UN, b=B(slen=1))
        yield mk("nested union", NEST, b=B(slen=1, keys="a"))
        yield mk("array of union", A(UN), b=B(arr=1, slen=1))
        yield mk("bytes", "bytes", gens={"x": lambda c, n: c.str(n, 2, [(0, 255)])})
