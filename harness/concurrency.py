"""C08 shared cells and pools: every schedule of several engine instances' actions, one step per shared access.

The engines' real code runs in threads of which exactly one is active at a time; before every access to shared state (lock, cell
value, pool item) the running one hands over to a scheduler whose picks are symbolic choices of the explorer."""
from harness.lang import *


from sx.sched import *


AI = {"type": "array", "items": "int"}
IN = {"type": "record", "name": "In", "fields": [{"name": "op", "type": "string"}, {"name": "k", "type": "string"}, {"name": "x", "type": "int"}]}


def upd(t):
    return {"params": [{"o": t}], "ret": t, "do": [{"if": {"==": ["input.x", 13]}, "then": {"error": "unlucky"}}, {"if": {"==": ["input.x", 14]}, "then": {"log": [1]}},
                                                 {"+": [{"+": ["o", "o"]}, "input.x"]}]}


OPS = {
    "cell fn": {"cell": "c", "to": upd("int")},
    "cell set": {"cell": "c", "to": "input.x"},
    "cell get": {"cell": "c"},
    "path fn": {"attr": {"cell": "a", "path": [1], "to": upd("int")}, "path": [1]},
    "path bad": {"attr": {"cell": "a", "path": ["input.x"], "to": 5}, "path": [1]},
    "path get": {"cell": "a", "path": [1]},
    "pool fn": {"pool": "p", "path": ["input.k"], "to": upd("int"), "init": 100},
    "pool set": {"pool": "p", "path": ["input.k"], "to": "input.x", "init": 0},
    "pool del": {"do": [{"pool": "p", "del": "input.k"}, 0]},
    "pool get": {"pool": "p", "path": ["input.k"]},
}
DOC = {"input": IN, "output": "int",
       "action": {"cond": [{"if": {"==": ["input.op", [n]]}, "then": e} for n, e in OPS.items()], "else": 0},
       "cells": {"c": {"type": "int", "init": 0, "shared": True}, "a": {"type": AI, "init": [0, 0], "shared": True}},
       "pools": {"p": {"type": "int", "init": {}, "shared": True}}}


class Boom(Exception):
    pass


def boom(*a):
    raise Boom()


def setup(n):
    def f():
        import titus.genpy
        titus.genpy.threading = FakeThreading()
        es = make_engine(once(DOC, set()), n=n)
        for e in es:
            e.e.log = boom
        stores = list(es[0].e.cells.values()) + list(es[0].e.pools.values())
        saved = [(s, dict((k, copy.copy(v) if isinstance(v, (dict, list, set)) else v) for k, v in s.__dict__.items())) for s in stores]
        for e in es[1:]:
            assert all(e.e.cells[k] is es[0].e.cells[k] for k in e.e.cells) and all(e.e.pools[k] is es[0].e.pools[k] for k in e.e.pools), "instances share their cells and pools"
        for i, s in enumerate(stores):
            watch(s, i >= len(es[0].e.cells))
        return es, stores, saved
    return f


def reset(env, state, c):
    es, stores, saved = env
    for s, d in saved:
        for k, v in d.items():
            if k != "value":
                s.__dict__[k] = copy.copy(v) if isinstance(v, (dict, list, set)) else v
    for l in SLock.every:
        l.holder, l.depth = None, 0
    e = es[0].e
    e.cells["c"].value, e.cells["a"].value, e.pools["p"].value = state["c"], list(state["a"]), dict(state["p"])
    for x in es:
        x.e.actionsStarted = x.e.actionsFinished = 0


def doit(e, v):
    try:
        return real_outcome(e.action, v, False)
    except Boom:
        return ("boom", None)


def atomic(st, v):
    """One operation executed alone: (state, outcome)."""
    r = Ref(DOC)
    r.cells, r.pools = {"c": st["c"], "a": list(st["a"])}, {"p": dict(st["p"])}
    r.do_log = boom
    try:
        out = ref_outcome(lambda: run_ref_doc(r, v))
    except Boom:
        out = ("boom", None)
    return {"c": r.cells["c"], "a": r.cells["a"], "p": r.pools["p"]}, out


def run_ref_doc(r, v):
    f = Frame()
    f.vars["input"] = v
    return r.ev(OPS[v["op"]], f)


def merges(seqs):
    """All interleavings of the sequences, as lists of (sequence, position)."""
    if all(len(s) == 0 for s in seqs):
        yield []
        return
    for i, s in enumerate(seqs):
        if s:
            for rest in merges([t[1:] if j == i else t for j, t in enumerate(seqs)]):
                yield [(i, s[0])] + rest


def schedule_job(name, pools_of_ops, counts, after=True, xs=None, **kw):
    """counts[i] actions by instance i, each with an operation from pools_of_ops[i] on symbolic data, under every schedule."""
    n = len(counts)

    def fn(c, env):
        st = {"c": c.int("c0", -100, 100), "a": [0, c.int("a1", -100, 100)], "p": {"k": c.int("pk", -100, 100)} if c.choice("has k", [True, False]) else {}}
        reset(env, st, c)
        es = [x.e for x in env[0]]
        inputs = [[{"op": c.choice("op%d.%d" % (i, j), pools_of_ops[i]), "k": "k" if not (i == 1 and j == 0) else c.choice("other item", ["k", "l"]), "x": xs[i] if xs else c.int("x%d.%d" % (i, j), -2, 20)}
                   for j in range(m)] for i, m in enumerate(counts)]
        sched = Sched(c)
        for i in range(n):
            sched.spawn((lambda e, vs: lambda: [doit(e, v) for v in vs])(es[i], inputs[i]))
        finished = sched.run()
        c.check(finished, name + ": every instance makes progress")
        if not finished:
            return
        results = [t.result for t in sched.tasks]
        e = es[0]
        final = {"c": e.cells["c"].value, "a": e.cells["a"].value, "p": dict(e.pools["p"].value)}
        c.observe("results", results)
        c.observe("final", final)
        ok = False
        for m in merges([list(range(k)) for k in counts]):
            s = st
            outs = [[None] * k for k in counts]
            for i, j in m:
                s, outs[i][j] = atomic(s, inputs[i][j])
            if all(outs[i][j][0] == results[i][j][0] for i, j in m) and set(s["p"]) == set(final["p"]):
                ok = c.or_(ok, c.and_(c.same(s, final), *[c.same(outs[i][j][1], results[i][j][1]) for i, j in m]))
        c.check(ok, name + ": results and final state are those of some serial order")
        if after:
            for i in range(n):
                try:
                    r = [doit(es[i], {"op": o, "k": "k", "x": 1})[0] for o in ("cell set", "path fn", "pool set", "pool del")]
                    c.check(r == ["ok"] * 4, name + ": instances keep working afterwards")
                except Deadlock:
                    c.fail(name + ": a lock is still held afterwards")
    return Job(name, fn, setup(n), bound="%d instances, %s actions, all schedules" % (n, counts), **kw)


def jobs(tier):
    deep = tier == "thorough"
    cell = ["cell fn", "cell set", "cell get"]
    path = ["path fn", "path bad", "path get"]
    pool = ["pool fn", "pool set", "pool del", "pool get"]
    yield schedule_job("cell 1+1", [cell, cell], [1, 1], limit=300)
    yield schedule_job("path 1+1", [path, path], [1, 1], limit=300)
    yield schedule_job("pool 1+1", [pool, pool], [1, 1], limit=300)
    yield schedule_job("cell and pool 1+2", [["cell fn"], ["pool fn", "cell fn"]], [1, 2], limit=300)
    yield schedule_job("cell 1+1+1", [["cell fn"]] * 3, [1, 1, 1], xs=[3, 5, 13], limit=400)
    yield schedule_job("pool 1+1+1", [["pool fn"], ["pool fn"], ["pool del"]], [1, 1, 1], xs=[3, 5, 0], limit=400)
    if deep:
        yield schedule_job("cell 2+2", [["cell fn"], ["cell fn", "cell set"]], [2, 2], limit=800, xs=[3, 5])
        yield schedule_job("pool 2+2", [["pool fn", "pool del"], ["pool fn", "pool set"]], [2, 2], limit=800, xs=[3, 5])
        yield schedule_job("cell fault 1+1+1", [cell, cell, ["cell fn"]], [1, 1, 1], limit=800)
        yield schedule_job("pool fault 1+1+1", [["pool fn"], ["pool fn", "pool set"], ["pool del", "pool fn"]], [1, 1, 1], limit=800)
