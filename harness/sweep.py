"""C25 every library function, at a family of argument types: the result has the inferred type (titus/signature.py, titus/lib).

The functions and their signatures are read from the current source. Each signature is instantiated at several choices of its
wildcards (and once with narrower numbers than it asks for); function arguments return an arbitrary value of their type."""
import json
import re

from harness import npmodel
from harness.lib import *

# decided by their own harness (numerical iterations, calendars), or not encodable (C library calls)
SKIPPED = re.compile(r"re\.|prob\.|time\.|s\.number|la\.(inverse|eigenBasis|truncate)|m\.special|model\.reg\.gaussianProcess|model\.cluster\.(randomSeeds|kmeansIteration)|"
                     r"stat\.test\.(chi2Prob|kolmogorov)|model\.reg\.(chi2Prob|mahalanobis)|m\.kernel|rand\.(uuid|bytes|string)|model\.neural|bytes\.encode|bytes\.decode|"
                     r"metric\.(simpleMatching|jaccard|tanimoto|binarySimilarity)|a\.(permutations|combinations|powerset)|m\.(link\.)?softmax|[&|^]$|m\.round$|cast\.(un)?signed|parse\.")

# parameters that say how many things to make, and the functions for which they are kept small
COUNT = {"n", "num", "numbins", "size", "windowSize", "low", "high", "minimum", "maximum", "numBins", "numClusters", "k"}
SMALLER = re.compile(r"map\.(toset|fromset|add|join)|stat\.sample\.topN|a\.(toset|zip)")

POOL = [["int", "string", "double"],
        [["null", "double"], ["int", "string"], "boolean"],
        [{"type": "record", "name": "Val", "fields": [{"name": "a", "type": "int"}, {"name": "b", "type": ["null", "string"]}]}, {"type": "array", "items": "int"}, "string"],
        ["long", "bytes", {"type": "map", "values": "int"}]]
MIX = [("int", "double", "double"), ("long", "int", "long"), ("int", "string", ["int", "string"]), ("string", "null", ["string", "null"])]


overflowing = re.compile(r"stat\.change\.updateTrigger|.*\.updateChi2")


class Inst(object):
    """One instantiation of a signature."""

    def __init__(self, variant, narrow, mix=None):
        self.variant, self.narrow, self.mix = variant, narrow, mix
        self.inside, self.turn = False, 0
        self.labels, self.order, self.fcns, self.names = {}, [], [], {}
        self.building = set()

    def label(self, p):
        if self.mix and not p.oneOf:
            first, second, both = self.mix
            if self.inside:
                return both
            self.turn += 1
            return first if self.turn % 2 else second
        if p.label not in self.labels:
            if p.oneOf:
                opts = sorted(p.oneOf, key=repr)
                t = json.loads(repr(opts[self.variant % len(opts)]))
            else:
                row = POOL[self.variant]
                t = row[len(self.labels) % len(row)]
            self.labels[p.label] = t
        return self.labels[p.label]

    def type(self, p, top=True):
        k = type(p).__name__
        if k in ("Null", "Boolean", "Bytes", "String"):
            return k.lower()
        if k in ("Int", "Long", "Float", "Double"):
            return "int" if self.narrow and top else k.lower()
        if k == "Array":
            return {"type": "array", "items": self.type(p.items, top)}
        if k == "Map":
            return {"type": "map", "values": self.type(p.values, top)}
        if k == "Union":
            ts = []
            for q in p.types:
                t = self.type(q, False)
                for u in t if isinstance(t, list) else [t]:
                    if u not in ts:
                        ts.append(u)
            return ts
        if k == "Wildcard":
            return self.label(p)
        if k == "WildRecord":
            n = "Rec" + p.label
            if p.label in self.building:
                return n
            if p.label not in self.labels or p.minimalFields:
                self.building.add(p.label)
                fields = [{"name": f, "type": self.type(q, False)} for f, q in p.minimalFields.items()] + [{"name": "extra", "type": "string"}]
                self.building.discard(p.label)
                self.labels[p.label] = {"type": "record", "name": n, "fields": fields}
                self.names[n] = self.labels[p.label]
            return self.labels[p.label]
        if k == "EnumFields":
            return {"type": "enum", "name": "Enum" + p.label, "symbols": [f["name"] for f in self.labels[p.wildRecord]["fields"]]}
        if k == "WildEnum":
            return {"type": "enum", "name": "En", "symbols": ["one", "two", "three"]}
        if k == "WildFixed":
            return {"type": "fixed", "name": "Fx", "size": 2}
        raise ValueError(k)

    def arg(self, name, p, params, cells):
        """(the argument expression, its type for signature matching)"""
        if type(p).__name__ == "Fcn":
            self.inside = True
            ps = [self.type(q, False) for q in p.params]
            r = self.type(p.ret, False)
            self.inside = False
            cell = "r_" + name
            cells[cell] = r
            return {"params": [{"p%d" % i: t} for i, t in enumerate(ps)], "ret": r, "do": {"cell": cell}}, (ps, r)
        params[name] = self.type(p)
        return "input." + name, params[name]


def default(t, names):
    if isinstance(t, list):
        for u in t:
            if u == "null":
                return None
        return {tag(t[-1]): default(t[-1], names)}
    if isinstance(t, str) and t in names:
        t = names[t]
    if isinstance(t, dict):
        k = t["type"]
        if k == "record":
            return dict((f["name"], default(f["type"], names)) for f in t["fields"])
        return {"array": [], "map": {}, "enum": t.get("symbols", [0])[0], "fixed": "\0" * t.get("size", 0)}[k]
    return {"null": None, "boolean": False, "int": 0, "long": 0, "float": 0.0, "double": 0.0, "string": "", "bytes": ""}[t]


def tag(t):
    return t if isinstance(t, str) else t.get("name", t["type"])


def value(c, name, t, names, depth, full=True):
    """An arbitrary small value of a type that may refer to the records in names."""
    if isinstance(t, list):
        opts = [u for u in t if depth > 0 or not (tag(u) in names)]
        u = opts[0] if len(opts) == 1 else c.choice(name + "|", opts)
        return None if u == "null" else {tag(u): value(c, name + "|" + tag(u), u, names, depth, full)}
    if isinstance(t, str) and t in names:
        t = names[t]
    if isinstance(t, dict):
        k = t["type"]
        if k == "array":
            n = c.choice(name + ".len", [0, 1, 2] if full else [0, 1])
            return [value(c, "%s.%d" % (name, i), t["items"], names, depth - 1, False) for i in range(n)]
        if k == "map":
            keys = c.choice(name + ".keys", [[], ["k"], ["k", "l"]] if full else [[], ["k"]])
            return dict((x, value(c, name + "." + x, t["values"], names, depth - 1, False)) for x in keys)
        if k == "record":
            return dict((f["name"], value(c, name + "." + f["name"], f["type"], names, depth - 1, False)) for f in t["fields"])
        if k == "enum":
            return c.choice(name, t["symbols"])
        if k == "fixed":
            return c.bytes(name, t["size"], t["size"])
    if t == "null":
        return None
    if t == "boolean":
        return c.bool(name)
    if t == "int":
        return c.int(name)
    if t == "long":
        return c.long(name)
    if t in ("float", "double"):
        return c.real(name)
    if t == "string":
        return c.str(name, 2 if full else 1)
    if t == "bytes":
        return c.bytes(name, 2 if full else 1)
    raise ValueError(t)


def belongs(c, t, v, names):
    """Is v a value of type t (a union value with or without its tag)?"""
    if isinstance(t, list):
        for u in t:
            if u == "null":
                if v is None:
                    return True
            elif isinstance(v, dict) and len(v) == 1 and tag(u) in v:
                r = belongs(c, u, v[tag(u)], names)
                if r is not False:
                    return r
        return c.or_(False, *[belongs(c, u, v, names) for u in t])
    if isinstance(t, str) and t in names:
        t = names[t]
    k = t["type"] if isinstance(t, dict) else t
    if isinstance(t, dict):
        if k == "array":
            return isinstance(v, (list, tuple)) and c.and_(True, *[belongs(c, t["items"], x, names) for x in v])
        if k == "map":
            return isinstance(v, dict) and c.and_(True, *[isinstance(x, str) and belongs(c, t["values"], v[x], names) for x in v])
        if k == "record":
            return isinstance(v, dict) and set(v) == set(f["name"] for f in t["fields"]) and c.and_(True, *[belongs(c, f["type"], v[f["name"]], names) for f in t["fields"]])
    if k in ("bytes", "fixed") and isinstance(v, str):       # bytes held as text
        return c.and_(k == "bytes" or len(v) == t["size"], *[ord(x) < 256 for x in v])
    return conforms(c, t, v)


def avro(types):
    from titus.datatype import ForwardDeclarationParser
    p = ForwardDeclarationParser()
    texts = [json.dumps(t) for t in types]
    return p.parse(texts), texts


def infer(fcn, pars, version=None):
    """The type a call has, according to the signature of the function."""
    from titus.datatype import FcnType
    from titus.signature import PFAVersion
    import titus.version
    seen = set()
    flat = []
    for t in pars:
        flat.extend(list(t[0]) + [t[1]] if isinstance(t, tuple) else [t])
    flat = [once(t, seen) for t in flat]
    got, texts = avro(flat)
    at = [got[x] for x in texts]
    args, i = [], 0
    for t in pars:
        n = len(t[0]) + 1 if isinstance(t, tuple) else 1
        args.append(FcnType(at[i:i + n - 1], at[i + n - 1]) if isinstance(t, tuple) else at[i])
        i += n
    return fcn.sig.accepts(args, PFAVersion.fromString(version or titus.version.__version__))


def library():
    from titus.pfaast import FunctionTable
    return FunctionTable.blank().functions


def job(fname, k, sig, variant, narrow, mix=None, deep=False):
    full = not SMALLER.match(fname)

    def setup():
        fcn = library()[fname]
        inst = Inst(variant, narrow, mix)
        params, cells, exprs, pars = {}, {}, [], []
        for p in sig.params:
            (n, pat), = p.items()
            e, t = inst.arg(n.rstrip("_"), pat, params, cells)
            exprs.append(e)
            pars.append(t)
        version = alive(sig)
        r = infer(fcn, pars, version)
        if r is None:       # then the document must be refused
            return refused({"input": {"type": "record", "name": "SxInput", "fields": [{"name": n, "type": t} for n, t in params.items()]},
                            "output": "null", "action": [{fname: [e if isinstance(e, str) else dict(e, do={"error": "none"}) for e in exprs]}, None]})
        ret = json.loads(repr(r[2]))
        names = dict(inst.names)
        for t in list(inst.labels.values()) + list(params.values()):
            if isinstance(t, dict) and "name" in t:
                names[t["name"]] = t
        seen = set()
        doc = {"input": {"type": "record", "name": "SxInput", "fields": [{"name": n, "type": t} for n, t in params.items()] or [{"name": "none", "type": "null"}]},
               "output": ret, "action": {fname: exprs}}
        if cells:
            doc["cells"] = dict((n, {"type": t, "init": default(t, names)}) for n, t in cells.items())
        doc = dict(doc)
        ordered = {"input": once(doc["input"], seen)}
        ordered["output"] = strip(ret, seen)
        if cells:
            ordered["cells"] = dict((n, {"type": once(x["type"], seen), "init": x["init"]}) for n, x in doc["cells"].items())
        ordered["action"] = strip(doc["action"], seen)
        return make_engine(ordered, version=version), params, cells, names, strip(ret, set(names))

    def fn(c, env):
        if isinstance(env, bool):
            c.check(env, fname + ": a call that matches no signature is refused")
            return
        e, params, cells, names, ret = env
        e.fresh()
        e.e.rand = Rnd(c)
        vals = dict((n, c.int(n, -1, 3) if n in COUNT and t == "int" else value(c, n, t, names, 3, full)) for n, t in params.items())
        if overflowing.match(fname):
            top = vals.get("history") or vals.get("state") or vals.get("state_")
            if c.known("counter-overflow", c.or_(*[top[x] == 2147483647 for x in top if x in ("numEvents", "numRuns", "currentRun", "dof", "DOF")])):
                return
        if fname == "//" and c.known("floordiv-min-type", c.and_(vals["y"] == -1, c.or_(vals["x"] == -2 ** 31, vals["x"] == -2 ** 63))):
            return
        if fname == "m.copysign" and c.known("copysign-min-type", c.and_(vals["sign"] >= 0, c.or_(vals["mag"] == -2 ** 31, vals["mag"] == -2 ** 63))):
            return
        for n, t in cells.items():
            e.cells0[n] = value(c, n, t, names, 3, False)
        if not params:
            vals = {"none": None}
        with npmodel.numpy_model(c):
            got = act(e, vals)
        c.observe("kind", got[0])
        if got[0] == "err":
            c.check(isinstance(got[1], int) and got[1] >= 1000, fname + ": an error with a code")
        elif got[0] == "ok":
            c.check(belongs(c, ret, got[1], names), fname + ": the result belongs to the inferred type")
    return Job("%s #%d %s%d" % (fname, k, "narrow" if narrow else "mixed" if mix else "at ", variant), fn, setup, limit=30 if deep else 8, max_paths=2000 if deep else 250, qms=2000,
               bound="wildcards at variant %d%s, collections up to 2, strings up to 2 characters" % (variant, ", narrower numbers" if narrow else ""))


def refused(doc):
    from titus.errors import PFASemanticException
    try:
        make_engine(once(doc, set()))
    except PFASemanticException:
        return True
    return False


def alive(sig):
    """None, or a version of the language in which the signature is still there."""
    from titus.signature import PFAVersion
    import titus.version
    now = PFAVersion.fromString(titus.version.__version__)
    s = sig.lifespan
    return None if s.current(now) or s.deprecated(now) else repr(s.deprecation) if s.deprecation is not None else repr(s.birth)


def strip(t, seen):
    """Named types already declared become names."""
    return once(t, seen)


def wild(sig):
    return "Wildcard" in repr_patterns(sig)


def repr_patterns(sig):
    return repr([list(p.values())[0] for p in sig.params])


# ---------------------------------------------------------------- which signature is chosen

NUM = ["int", "long", "float", "double"]
ARGS = NUM + ["string", "boolean", "bytes"] + [{"type": "array", "items": t} for t in ("int", "double", "string")] + \
    [{"type": "map", "values": t} for t in ("int", "double")] + [{"type": "array", "items": {"type": "array", "items": "double"}}, {"type": "map", "values": {"type": "map", "values": "double"}}]


def concrete(p):
    k = type(p).__name__
    return k in ("Null", "Boolean", "Int", "Long", "Float", "Double", "String", "Bytes") or k == "Array" and concrete(p.items) or k == "Map" and concrete(p.values)


def shape(p):
    k = type(p).__name__
    return {"type": "array", "items": shape(p.items)} if k == "Array" else {"type": "map", "values": shape(p.values)} if k == "Map" else k.lower()


def takes(want, t):
    """Does a parameter of type want take values of type t?"""
    if isinstance(want, dict) or isinstance(t, dict):
        if not isinstance(want, dict) or not isinstance(t, dict) or want["type"] != t["type"]:
            return False
        k = "items" if want["type"] == "array" else "values"
        return takes(want[k], t[k])
    return want == t or want in NUM and t in NUM and NUM.index(t) < NUM.index(want)


def resolution(fname, sigs, deep):
    """of the signatures that match, the one chosen is not wider than another"""
    n = len(sigs[0].params)
    pool = ARGS if n <= 2 or deep and n <= 3 else ARGS[:4] + ARGS[8:9] if n <= 4 else ["int", "double"]

    def fn(c, env):
        fcn = library()[fname]
        ts = [c.choice("t%d" % i, pool) for i in range(n)]
        from titus.signature import Sigs
        cases = [s for s in fcn.sig.cases if alive(s) is None]
        r = infer(fcn, ts)
        fit = [s for s in cases if len(s.params) == n and all([takes(shape(list(p.values())[0]), t) for p, t in zip(s.params, ts)])]
        c.check((r is None) == (not fit), fname + ": accepted exactly when a signature matches")
        if r is None or not fit:
            return
        got = [json.loads(repr(t)) for t in r[1]]
        for s in fit:
            other = [shape(list(p.values())[0]) for p in s.params]
            c.check(other == got or not all([takes(g, o) for g, o in zip(got, other)]), fname + ": the narrowest matching signature is chosen")
        mine = [s for s in fit if [shape(list(p.values())[0]) for p in s.params] == got]
        c.check(len(mine) > 0 and json.loads(repr(r[2])) in [shape(s.ret) for s in mine], fname + ": result type of the chosen signature")
    return Job("resolution %s %d" % (fname, n), fn, lambda: True, limit=60, max_paths=6000, bound="argument types from a pool of %d" % len(pool))


def common(fname, sig):
    """arguments that share a wildcard limited to numbers: the result has the widest of their types"""
    n = len(sig.params)
    allowed = [json.loads(repr(t)) for t in list(sig.params[0].values())[0].oneOf]

    def fn(c, env):
        ts = [c.choice("t%d" % i, NUM + ["string", "boolean", "null", ["null", "int"], {"type": "array", "items": "int"}]) for i in range(n)]
        r = infer(library()[fname], ts)
        ok = all([isinstance(t, str) and t in allowed for t in ts])
        c.check((r is not None) == ok, fname + ": accepted exactly for numbers")
        if r is not None and ok:
            c.check(json.loads(repr(r[2])) == NUM[max([NUM.index(t) for t in ts])], fname + ": the result has the widest type of the arguments")
    return Job("common type " + fname, fn, lambda: True, limit=60)


# ---------------------------------------------------------------- functions as arguments

FT = NUM + ["string", ["null", "double"], ["int", "string"], {"type": "array", "items": "int"}, {"type": "array", "items": "double"}, {"type": "map", "values": "int"},
            {"type": "record", "name": "R", "fields": [{"name": "x", "type": "int"}]}]


def holds(want, t):
    """Is every value of type t a value of type want?"""
    if isinstance(t, list):
        return all([holds(want, u) for u in t])
    if isinstance(want, list):
        return any([holds(u, t) for u in want])
    if isinstance(want, dict) and isinstance(t, dict) and want["type"] == "record":
        return want == t
    return takes(want, t)


def fcnargs(kind, deep):
    """a function argument is accepted exactly when its parameter holds every value it would be given"""
    row = FT if deep else [FT[i] for i in (0, 1, 3, 4, 5, 6, 8, 10)]
    FILL = {"a.map": lambda f, t: {"a.map": [{"new": ["input"], "type": {"type": "array", "items": t}}, f]},
            "map.map": lambda f, t: {"map.map": [{"new": {"k": "input"}, "type": {"type": "map", "values": t}}, f]},
            "a.mapWithIndex": lambda f, t: {"a.mapWithIndex": [{"new": ["input"], "type": {"type": "array", "items": t}}, f]},
            "apply": lambda f, t: {"u.g": ["input"]}}

    def fn(c, env):
        from titus.errors import PFASemanticException
        call = c.choice("call", ["a.map", "map.map"] if kind != "fill" else ["a.map"])
        item, par = c.choice("item", row), c.choice("par", row)
        body = {"params": [{"x": par}], "ret": "int", "do": 7}
        fcns = {}
        if kind == "inline":
            f = body
        elif kind == "user":
            f, fcns["f"] = {"fcn": "u.f"}, body
        else:
            f, fcns["f"] = {"fcn": "u.f", "fill": {"x": "input"}}, {"params": [{"y": "double"}, {"x": par}], "ret": "int", "do": 7}
        if kind == "fill":
            action = {"a.map": [{"type": {"type": "array", "items": "double"}, "value": [1]}, f]}
        else:
            action = FILL[call](f, item)
        seen = set()
        doc = {"input": once(item, seen), "output": {"type": "map", "values": "int"} if call == "map.map" else {"type": "array", "items": "int"}}
        if fcns:
            doc["fcns"] = dict((n, once(x, seen)) for n, x in fcns.items())
        doc["action"] = once(action, seen)
        try:
            e, ok = make_engine(doc), True
        except PFASemanticException:
            ok = False
        c.check(ok == holds(par, item), "%s function argument: accepted exactly when its parameter holds every value it is given" % kind)
        if ok:
            got = act(e, value(c, "v", item, {}, 2))
            c.check(got == ("ok", {"k": 7} if call == "map.map" else [7]), "%s function argument: called" % kind)
    return Job("function argument " + kind, fn, lambda: True, limit=100, max_paths=3000, bound="eleven types (quick: eight)")


def jobs(tier):
    deep = tier == "thorough"
    out = [fcnargs(k, deep) for k in ("inline", "user", "fill")]
    from titus.signature import Sigs
    for fname, fcn in sorted(library().items()):
        if not isinstance(fcn.sig, Sigs) and all([type(list(p.values())[0]).__name__ == "Wildcard" for p in fcn.sig.params]) and len(fcn.sig.params) <= 2 and \
                type(fcn.sig.ret).__name__ == "Wildcard" and "AvroInt" in repr([type(t) for t in list(fcn.sig.params[0].values())[0].oneOf or []]):
            out.append(common(fname, fcn.sig))
        if isinstance(fcn.sig, Sigs):
            cs = [s for s in fcn.sig.cases if alive(s) is None]
            if cs and all([concrete(list(p.values())[0]) for s in cs for p in s.params]) and all([concrete(s.ret) for s in cs]):
                for n in sorted(set([len(s.params) for s in cs])):
                    out.append(resolution(fname, [s for s in cs if len(s.params) == n], deep))
    for fname, fcn in sorted(library().items()):
        if SKIPPED.match(fname):
            continue
        for k, sig in enumerate(fcn.sig.cases if isinstance(fcn.sig, Sigs) else [fcn.sig]):
            r = repr_patterns(sig)
            variants = range(len(POOL) if deep else 3) if "Wildcard(" in r else [0]
            for v in variants:
                out.append(job(fname, k, sig, v, False, None, deep))
            if r.count("P.Wildcard(") > 1 and "WildRecord" not in r:
                for v, m in enumerate(MIX):
                    out.append(job(fname, k, sig, v, False, m, deep))
            if any(x in r for x in ("P.Double", "P.Long", "P.Float")) and "WildRecord" not in r:
                out.append(job(fname, k, sig, 0, True))
    return out
