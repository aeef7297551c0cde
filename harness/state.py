"""C06 paths, C07 rollback, C09 methods, counters and lifecycle: engine histories compared with the reference interpreter."""
from harness.lang import *

AI = {"type": "array", "items": "int"}
D = {"type": "record", "name": "D", "fields": [
    {"name": "arr", "type": AI},
    {"name": "mm", "type": {"type": "map", "values": AI}},
    {"name": "am", "type": {"type": "array", "items": {"type": "map", "values": "int"}}},
    {"name": "rr", "type": {"type": "record", "name": "RR", "fields": [{"name": "n", "type": "int"}, {"name": "s", "type": "string"}]}}]}
PARAMS = [("d", D), ("i", "int"), ("j", "int"), ("k", "string"), ("x", "int")]
F1 = {"params": [{"old": "int"}], "ret": "int", "do": [{"let": {"t": {"+": ["old", "input.x"]}}}, {"if": {"==": ["t", 7]}, "then": {"error": "seven"}}, "t"]}
FARR = {"params": [{"old": AI}], "ret": AI, "do": [{"a.append": ["old", "input.x"]}]}
FCNS = {"inc": {"params": [{"old": "int"}], "ret": "int", "do": {"+": ["old", 1]}},
        "addto": {"params": [{"y": "int"}, {"old": "int"}], "ret": "int", "do": {"+": [{"+": ["old", "old"]}, "y"]}}}
NEWARR = {"type": AI, "new": ["input.x", "input.x"]}
NEWMAP = {"type": {"type": "map", "values": "int"}, "new": {"a": "input.x"}}
NEWRR = {"type": "RR", "new": {"n": "input.x", "s": ["z"]}}
PATHS = {"arr[i]": ([["arr"], "input.i"], "int"), "mm[k]": ([["mm"], "input.k"], AI), "mm[k][i]": ([["mm"], "input.k", "input.i"], "int"),
         "am[i]": ([["am"], "input.i"], {"type": "map", "values": "int"}), "am[i][k]": ([["am"], "input.i", "input.k"], "int"), "rr": ([["rr"]], "RR"), "rr.n": ([["rr"], ["n"]], "int"), "arr": ([["arr"]], AI)}


def tos(t):
    """Right-hand sides for a path of type t."""
    if t == "int":
        return {"value": {"+": ["input.x", 1]}, "fcn": F1, "ref": {"fcn": "u.inc"}, "fill": {"fcn": "u.addto", "fill": {"y": "input.x"}}}
    if t == AI:
        return {"value": NEWARR, "fcn": FARR}
    if t == "RR":
        return {"value": NEWRR}
    return {"value": NEWMAP}


def doc_of(action, ret, cells=None, pools=None, **extra):
    d = {"input": {"type": "record", "name": "In", "fields": [{"name": n, "type": t} for n, t in PARAMS]}, "output": ret, "action": action, "fcns": FCNS}
    d.update(cells=cells or {}, pools=pools or {}, **extra)
    return once(d, set())


def dgen(c, n, big=False):
    """A symbolic D: sizes and keys chosen, leaves free."""
    s = lambda x: c.int(n + x, -1000, 1000)
    arr = [s("a%d" % i) for i in range(c.choice(n + "#arr", [2, 0] if not big else [0, 1, 2, 3]))]
    mm = dict((k, [s("m%s%d" % (k, i)) for i in range(2 if k == "a" else 0)]) for k in c.choice(n + "#mm", [("a",), ("a", "b")]))
    am = [dict((k, s("am%d%s" % (i, k))) for k in ("a", "b")[:2 - i]) for i in range(c.choice(n + "#am", [2, 1]))]
    return {"arr": arr, "mm": mm, "am": am, "rr": {"n": s("n"), "s": "q"}}


def fixed_d(c, n):
    s = lambda x: c.int(n + x, -1000, 1000)
    return {"arr": [s("a0"), s("a1")], "mm": {"a": [s("m0"), s("m1")], "b": []}, "am": [{"a": s("am0"), "b": s("am1")}, {}], "rr": {"n": s("n"), "s": "q"}}


def scalars(c, n=""):
    return {"i": c.int("i" + n, -3, 4), "j": c.int("j" + n, -3, 4), "k": c.choice("k" + n, ["a", "b", "c"]), "x": c.int("x" + n, -1000, 1000)}


def path_job(name, progs, state=False, steps=1, big=False, **kw):
    """Job: programs (name -> doc) run for `steps` inputs agree with the reference interpreter in result and state; nothing held elsewhere changes."""
    names = list(progs)

    def setup():
        return dict((n, make_engine(progs[n])) for n in names)

    def fn(c, env):
        n = c.choice("program", names)
        doc = progs[n]
        e = env[n].fresh()
        r = Ref(doc)
        for cell in doc["cells"]:
            v = fixed_d(c, "cell" + cell)
            e.cells[cell].value = copy_tree(v)
            r.cells[cell] = copy_tree(v)
        for pool in doc["pools"]:
            v = dict((k, fixed_d(c, "pool" + k)) for k in c.choice("pool#", [("a",), ("b",), ("a", "b")]))
            e.pools[pool].value = copy_tree(v)
            r.pools[pool] = copy_tree(v)
        held = []
        for s in range(steps):
            v = scalars(c, str(s))
            v["d"] = (dgen if big else fixed_d)(c, "d") if not doc["cells"] and not doc["pools"] else {"arr": [], "mm": {}, "am": [], "rr": {"n": 0, "s": ""}}
            before = copy_tree(v)
            held += [(e.cells[x].value, copy_tree(e.cells[x].value)) for x in doc["cells"]]
            held += [(dict(e.pools[x].value), copy_tree(e.pools[x].value)) for x in doc["pools"]]
            want = ref_outcome(lambda: run_ref(r, copy_tree(v)))
            got = real_outcome(e.action, v, False)
            agree_outcome(c, got, want, "%s/%s step %d" % (name, n, s))
            c.check(c.same(v, before), name + "/" + n + ": input unmodified")
            for x in doc["cells"]:
                c.check(c.same(e.cells[x].value, r.cells[x]), "%s/%s: cell after step %d" % (name, n, s))
            for x in doc["pools"]:
                c.check(c.same(e.pools[x].value, r.pools[x]), "%s/%s: pool after step %d" % (name, n, s))
            for a, b in held:
                c.check(c.same(a, b), name + "/" + n + ": a value held before the update is intact")
            if got[0] == "ok":
                held.append((got[1], copy_tree(got[1])))
    return Job(name, fn, setup, **kw)


CELL = {"c": {"type": "D", "init": {"arr": [], "mm": {}, "am": [], "rr": {"n": 0, "s": ""}}}}
POOL = {"p": {"type": "D", "init": {}}}
INIT = {"type": "D", "value": {"arr": [10, 20], "mm": {"a": [1, 2]}, "am": [{"a": 5}], "rr": {"n": 3, "s": "i"}}}


def c06(tier):
    deep = tier == "thorough"
    for pn, (path, t) in PATHS.items():
        progs = {"get": doc_of([{"attr": "input.d", "path": path}], t)}
        for tn, to in tos(t).items():
            progs["to " + tn] = doc_of([{"attr": "input.d", "path": path, "to": to}], "D")
            progs["old after to " + tn] = doc_of([{"let": {"old": "input.d"}}, {"let": {"new": {"attr": "old", "path": path, "to": to}}}, {"let": {"newer": {"attr": "new", "path": path, "to": to}}}, "new"], "D")
        yield path_job("attr " + pn, progs, big=True, limit=200)
        cells = {"get": doc_of([{"cell": "c", "path": path}], t, cells=CELL)}
        for tn, to in tos(t).items():
            cells["to " + tn] = doc_of([{"cell": "c", "path": path, "to": to}], "D", cells=CELL)
            cells["held across " + tn] = doc_of([{"let": {"old": {"cell": "c"}, "sub": {"cell": "c", "path": path}}}, {"cell": "c", "path": path, "to": to}, {"cell": "c", "path": [["arr"]], "to": NEWARR}, "old"], "D", cells=CELL)
            cells["twice " + tn] = doc_of([{"let": {"one": {"cell": "c", "path": path, "to": to}}}, {"cell": "c", "path": path, "to": to}, "one"], "D", cells=CELL)
        yield path_job("cell " + pn, cells, steps=2 if deep else 1, limit=300)
        pp = ["input.k"] + path
        pools = {"get": doc_of([{"pool": "p", "path": pp}], t, pools=POOL)}
        for tn, to in tos(t).items():
            pools["to " + tn] = doc_of([{"pool": "p", "path": pp, "to": to, "init": INIT}], "D", pools=POOL)
            pools["held across " + tn] = doc_of([{"let": {"old": {"pool": "p", "path": [["a"]]}}}, {"pool": "p", "path": [["a"]] + path, "to": to, "init": INIT}, {"pool": "p", "path": pp, "to": to, "init": INIT}, "old"], "D", pools=POOL)
        yield path_job("pool " + pn, pools, steps=2 if deep else 1, limit=300)
    whole = {
        "cell whole": doc_of([{"cell": "c", "to": {"params": [{"old": "D"}], "ret": "D", "do": {"attr": "old", "path": [["arr"], "input.i"], "to": F1}}}], "D", cells=CELL),
        "cell replaced": doc_of([{"let": {"o": {"cell": "c"}}}, {"cell": "c", "to": INIT}, {"cell": "c", "path": [["arr"], "input.i"], "to": "input.x"}, "o"], "D", cells=CELL),
        "cells independent": doc_of([{"cell": "c", "to": {"cell": "e"}}, {"cell": "c", "path": [["arr"], "input.i"], "to": "input.x"}, {"cell": "e"}], "D", cells={"c": CELL["c"], "e": CELL["c"]}),
        "pool del": doc_of([{"let": {"o": {"pool": "p", "path": ["input.k"]}}}, {"pool": "p", "del": "input.k"}, {"pool": "p", "del": ["c"]}, "o"], "D", pools=POOL),
        "pool copy item": doc_of([{"pool": "p", "path": [["n"]], "to": {"pool": "p", "path": ["input.k"]}, "init": INIT}, {"pool": "p", "path": ["input.k", ["rr"], ["n"]], "to": "input.x", "init": INIT}, {"pool": "p", "path": [["n"]]}], "D", pools=POOL),
        "pool init then del": doc_of([{"pool": "p", "path": ["input.k", ["arr"], "input.i"], "to": F1, "init": INIT}, {"pool": "p", "del": "input.k"}, {"pool": "p", "path": ["input.k", ["rr"], ["n"]], "to": {"fcn": "u.inc"}, "init": INIT}], "D", pools=POOL),
        "init is not shared": doc_of([{"let": {"z": INIT}}, {"pool": "p", "path": [["m"], ["arr"], "input.i"], "to": F1, "init": "z"}, {"pool": "p", "path": [["n"], ["arr"], "input.j"], "to": F1, "init": "z"}, "z"], "D", pools=POOL)}
    for wn, d in whole.items():
        yield path_job(wn, {wn: d}, steps=2 if deep or "init" not in wn else 1, limit=300)


# ------------------------------------------------------------------ C07 rollback

class Boom(Exception):
    """An exception of the host's, raised inside a callback."""


MI = {"type": "map", "values": "int"}
RIN = {"type": "record", "name": "In", "fields": [{"name": "f", "type": "int"}, {"name": "g", "type": "int"}, {"name": "k", "type": "string"}, {"name": "x", "type": "int"}]}


def fails(at):
    """The action may fail here with: a user error, a runtime error, or an error raised by the host's log callback."""
    return {"cond": [{"if": {"==": ["input.f", at]}, "then": {"cond": [{"if": {"==": ["input.g", 0]}, "then": {"error": "stop", "code": -at - 1}},
                                                                      {"if": {"==": ["input.g", 1]}, "then": {"do": [{"+": [2147483647, 1]}, None]}}], "else": {"do": [{"log": [at]}, None]}}}]}


def rollback_doc(order, method="map"):
    up = {
        "cell": [{"cell": "r", "to": {"params": [{"o": AI}], "ret": AI, "do": {"a.append": ["o", "input.x"]}}}, {"cell": "n", "to": {"params": [{"o": "int"}], "ret": "int", "do": {"+": ["o", "input.x"]}}}],
        "path": [{"cell": "r", "path": [0], "to": "input.x"}, {"cell": "r", "path": [1], "to": {"params": [{"o": "int"}], "ret": "int", "do": {"+": ["o", "input.x"]}}}],
        "pool": [{"pool": "pr", "path": ["input.k"], "to": {"params": [{"o": "int"}], "ret": "int", "do": {"+": ["o", "input.x"]}}, "init": 100}, {"pool": "pn", "path": ["input.k"], "to": "input.x", "init": 0}],
        "del": [{"pool": "pr", "del": ["a"]}, {"pool": "pn", "del": "input.k"}],
        "poolpath": [{"pool": "qr", "path": ["input.k", 0], "to": {"params": [{"o": "int"}], "ret": "int", "do": {"+": ["o", "input.x"]}}, "init": {"type": AI, "value": [1]}}]}
    body = [fails(0)]
    for i, o in enumerate(order):
        body += up[o] + [fails(i + 1)]
    out = {"input": RIN, "output": AI if method != "fold" else "int",
           "action": body + [{"cell": "r"} if method == "map" else {"emit": {"cell": "r"}} if method == "emit" else {"+": ["tally", "input.x"]}],
           "cells": {"r": {"type": AI, "init": [], "rollback": True}, "n": {"type": "int", "init": 0}},
           "pools": {"pr": {"type": "int", "init": {}, "rollback": True}, "pn": {"type": "int", "init": {}}, "qr": {"type": AI, "init": {}, "rollback": True}}, "method": method}
    if method == "fold":
        out.update(zero=0, merge=[{"cell": "r", "to": {"params": [{"o": AI}], "ret": AI, "do": {"a.append": ["o", "tallyOne"]}}}, {"cell": "n", "to": "tallyTwo"}, {"+": ["tallyOne", "tallyTwo"]}])
    return out


def rollback_job(order, steps, method="map", **kw):
    doc = rollback_doc(order, method)

    def setup():
        return make_engine(doc)

    def fn(c, env):
        e = env.fresh()
        r = Ref(doc)
        st = {"r": [c.int("r%d" % i, -1000, 1000) for i in range(c.choice("r#", [2, 1]))], "n": c.int("n", -1000, 1000)}
        pl = dict((p, dict((k, c.int(p + k, -1000, 1000)) for k in ks)) for p, ks in (("pr", ("a",)), ("pn", ("a",))))
        pl["qr"] = {"a": [c.int("qra", -1000, 1000)]}
        if len(st["r"]) == 1:
            pl["pr"], pl["qr"] = {}, {}         # pools start empty unless initialized
        for k, v in st.items():
            e.cells[k].value = copy_tree(v)
            r.cells[k] = copy_tree(v)
        for k, v in pl.items():
            e.pools[k].value = copy_tree(v)
            r.pools[k] = copy_tree(v)

        def log(xs, ns=None):
            raise Boom()
        e.log = log
        tally = 0
        started = finished = 0
        for s in range(steps):
            v = {"f": c.int("f%d" % s, 0, len(order) + 1), "g": c.int("g%d" % s, 0, 2), "k": c.choice("k%d" % s, ["a", "b"]), "x": c.int("x%d" % s, -1000, 1000)}
            keep = (copy_tree(r.cells), copy_tree(r.pools))
            r.do_log = lambda ex, f: boom()
            started += 1

            def ref():
                f = Frame()
                f.vars["input"], f.vars["tally"] = copy_tree(v), tally
                return r.block(doc["action"], f)
            try:
                want = ref_outcome(ref)
            except Boom:
                want = ("boom", None)
            if want[0] != "ok":
                r.cells["r"] = keep[0]["r"]
                r.pools["pr"], r.pools["qr"] = keep[1]["pr"], keep[1]["qr"]
            else:
                finished += 1
                if method == "fold":
                    tally = want[1]
            try:
                got = real_outcome(e.action, v, False)
            except Boom:
                got = ("boom", None)
            if method == "emit" and got[0] == "ok":
                got = ("ok", None)
            agree_outcome(c, got, want, "step %d" % s)
            for k in e.cells:
                c.check(c.same(e.cells[k].value, r.cells[k]), "cell %s after step %d" % (k, s))
            for k in e.pools:
                c.check(c.same(e.pools[k].value, r.pools[k]), "pool %s after step %d" % (k, s))
            c.check(c.and_(e.actionsStarted == started, e.actionsFinished == finished), "counters after step %d" % s)
            if method == "fold":
                c.check(c.same(e.tally, tally), "tally after step %d" % s)
        if method == "emit":
            c.check(c.same(e.emitted, r.emitted), "emitted values")
        if method == "fold" and steps == 1 and c.choice("merge", [False, True]):
            a, b = c.int("one"), c.int("two")
            keep = copy_tree(r.cells["r"])
            fits = c.and_(a + b >= INT_MIN, a + b <= INT_MAX)
            got = real_outcome(e.merge, a, b)
            ok = got[0] == "ok"
            c.check(fits if ok else c.not_(fits), "merge fails exactly on overflow")
            c.check(c.same(e.cells["r"].value, keep + [a] if ok else keep), "rolled back merge")
            c.check(c.same(e.cells["n"].value, b), "merge keeps the cell without rollback")
            if ok:
                c.check(c.and_(c.same(got[1], a + b), c.same(e.tally, a + b)), "merged tally")
            else:
                c.check(c.same(e.tally, tally), "tally after a failed merge")
    return Job("rollback %s %s x%d" % (method, "/".join(order), steps), fn, setup, **kw)


def boom():
    raise Boom()


def c07(tier):
    deep = tier == "thorough"
    for method in ("map", "emit", "fold"):
        yield rollback_job(["cell", "pool", "del"], 1, method, limit=200)
        yield rollback_job(["path", "poolpath"], 1, method, limit=200)
        yield rollback_job(["pool", "cell"] if not deep else ["pool", "cell", "del"], 2, method, limit=300)
    for o in (["del", "pool"], ["poolpath", "pool"], ["cell", "path"], ["pool", "poolpath"]):
        yield rollback_job(o, 2, limit=300)
    if deep:
        for o in (["del", "pool", "cell"], ["poolpath", "del", "path"], ["cell", "poolpath"]):
            yield rollback_job(o, 3, limit=800)


# ------------------------------------------------------------------ C09 methods and lifecycle

def life_docs():
    rec = {"type": "record", "name": "Out", "fields": [{"name": "s", "type": "long"}, {"name": "f", "type": "long"}, {"name": "x", "type": "int"}, {"name": "i", "type": "int"}]}
    out = {"type": "Out", "new": {"s": "actionsStarted", "f": "actionsFinished", "x": "input", "i": "instance"}}
    bad = {"if": {"==": ["input", 13]}, "then": {"error": "unlucky"}}
    begin = [{"cell": "events", "to": {"params": [{"o": AI}], "ret": AI, "do": {"a.append": ["o", -1]}}}]
    end = [{"cell": "events", "to": {"params": [{"o": AI}], "ret": AI, "do": {"a.append": ["o", -2]}}}, {"cell": "counts", "to": {"type": {"type": "array", "items": "long"}, "new": ["actionsStarted", "actionsFinished"]}}]
    step = {"cell": "events", "to": {"params": [{"o": AI}], "ret": AI, "do": {"a.append": ["o", "input"]}}}
    cells = {"events": {"type": AI, "init": []}, "counts": {"type": {"type": "array", "items": "long"}, "init": []}}
    base = dict(input="int", cells=cells, begin=begin, end=end)
    return {
        "map": dict(base, output=rec, action=[step, bad, out]),
        "emit": dict(base, output=rec, method="emit", action=[step, {"emit": {"new": {"s": "actionsStarted", "f": "actionsFinished", "x": 0, "i": "instance"}, "type": rec}}, bad, {"if": {">": ["input", 5]}, "then": [{"emit": dict(out)}, {"emit": dict(out)}]}]),
        "fold": dict(base, output="int", method="fold", zero=4, action=[step, bad, {"+": ["tally", {"+": ["tally", "input"]}]}], merge=[{"-": ["tallyOne", "tallyTwo"]}]),
        "foldtally": dict(base, output="int", method="fold", zero=4, end=end + [{"cell": "events", "to": {"params": [{"o": AI}], "ret": AI, "do": {"a.append": ["o", "tally"]}}}], action=[step, bad, {"+": ["tally", "input"]}], merge=[{"+": ["tallyOne", "tallyTwo"]}]),
        "beginfail": dict(base, output=rec, begin=begin + [{"error": "nobegin"}], action=[step, bad, out])}


def life_job(name, doc, steps, **kw):
    def setup():
        return make_engine(once(doc, set()), n=2)

    def fn(c, envs):
        es = [x.fresh() for x in envs]
        which = c.choice("instance", [0, 1])
        e = es[which]
        before = copy_tree(es[1 - which].cells["events"].value)
        b = real_outcome(e.begin)
        if name == "beginfail":
            c.check(b == ("user", ("nobegin", None)), "begin reports its error")
        else:
            c.check(b[0] == "ok", "begin succeeds")
        events, emitted, fin = [-1], [], 0
        tally = 4
        for s in range(steps):
            x = c.int("x%d" % s, -100, 100)
            wrong = c.choice("wrong%d" % s, [False, False, True]) if s == 0 else False
            if wrong:
                # an input that is not of the input type is refused before anything starts
                try:
                    e.action("no")
                    c.fail("ill-typed input accepted")
                except (TypeError, RuntimeError):
                    pass
                st0 = e.actionsStarted
                c.check(c.and_(e.actionsStarted == 0, e.actionsFinished == 0), "refused input is not counted")
            started = s + 1
            events.append(x)
            got = real_outcome(e.action, x)
            bad = x == 13
            if name == "emit":
                emitted.append({"s": started, "f": fin, "x": 0, "i": which})
            if bad:
                c.check(got == ("user", ("unlucky", None)), "failing action %d" % s)
            else:
                rec = {"s": started, "f": fin, "x": x, "i": which}
                if name in ("map", "beginfail"):
                    c.check(got[0] == "ok" and c.same(got[1], rec), "output %d" % s)
                elif name == "emit":
                    c.check(got[0] == "ok", "emit action %d" % s)
                    if x > 5:
                        emitted += [rec, rec]
                else:
                    tally = 2 * tally + x if name == "fold" else tally + x
                    c.check(got[0] == "ok" and c.same(got[1], tally), "running tally %d" % s)
                fin += 1
            c.check(c.and_(e.actionsStarted == started, e.actionsFinished == fin), "counters %d" % s)
            if name in ("fold", "foldtally"):
                c.check(c.same(e.tally, tally), "tally %d" % s)
        if name in ("fold", "foldtally") and c.choice("merge", [False, True]):
            a, bb = c.int("one", -1000, 1000), c.int("two", -1000, 1000)
            got = real_outcome(e.merge, a, bb)
            tally = a - bb if name == "fold" else a + bb
            c.check(got[0] == "ok" and c.same(got[1], tally), "merge result")
            x = c.int("after", -100, 12)
            events.append(x)
            got = real_outcome(e.action, x)
            tally = 2 * tally + x if name == "fold" else tally + x
            c.check(got[0] == "ok" and c.same(got[1], tally), "continues from the merged tally")
            steps1, fin = steps + 1, fin + 1
        else:
            steps1 = steps
        c.check(real_outcome(e.end)[0] == "ok", "end succeeds")
        events.append(-2)
        if name == "foldtally":
            events.append(tally)
        c.check(c.same(e.cells["events"].value, events), "begin before, end after all actions")
        c.check(c.same(e.cells["counts"].value, [steps1, fin]), "counters seen by end")
        c.check(c.same(e.emitted, emitted), "emitted once per emit, in order")
        o = es[1 - which]
        c.check(c.and_(c.same(o.cells["events"].value, before), o.actionsStarted == 0, o.actionsFinished == 0), "other instance untouched")
    return Job("life %s x%d" % (name, steps), fn, setup, **kw)


def emit_reference():
    """emit passed as a function and called from user functions reaches the engine's listener."""
    doc = {"input": AI, "output": "int", "method": "emit", "fcns": {"twice": {"params": [{"x": "int"}], "ret": "null", "do": [{"emit": "x"}, {"emit": {"+": ["x", 1]}}]}},
           "action": [{"foreach": "x", "in": "input", "do": [{"u.twice": "x"}]}, {"a.map": ["input", {"fcn": "emit"}]}]}

    def fn(c, env):
        e = env.fresh()
        v = [c.int("x%d" % i, -100, 100) for i in range(c.choice("#", [0, 1, 2, 3]))]
        c.check(real_outcome(e.action, v, False)[0] == "ok", "succeeds")
        want = []
        for x in v:
            want += [x, x + 1]
        c.check(c.same(e.emitted, want + v), "emitted in order")
    return Job("emit from functions", fn, lambda: make_engine(doc))


def seeds():
    """instances built from one document and seed draw different numbers, the same ones every time"""
    def fn(c, env):
        from titus.genpy import PFAEngine
        seed = c.choice("seed", [0, 12345, 2 ** 31])
        n = c.choice("n", [2, 3, 4])
        doc = {"input": "int", "output": "int", "action": {"rand.int": []}, "randseed": seed}
        with_seed = []
        for i in range(2):
            with_seed.append([[e.action(0) for k in range(3)] for e in PFAEngine.fromJson(doc, multiplicity=n)])
        c.check(with_seed[0] == with_seed[1], "seeded instances are reproducible")
        c.check(all(with_seed[0][i] != with_seed[0][j] for i in range(n) for j in range(i)), "instances draw different numbers")
        one, = PFAEngine.fromJson(doc)
        c.check([one.action(0) for k in range(3)] == with_seed[0][0], "the number of instances does not matter to the first")
    return Job("seeds", fn, lambda: True, bound="three seeds, up to four instances (concrete)")


def c09(tier):
    yield seeds()
    for n, d in life_docs().items():
        yield life_job(n, d, 2, limit=200)
        yield life_job(n, d, 4 if tier == "thorough" else 3, limit=600)
    yield emit_reference()
