"""C36: the k-means and tree producers (titus/producer/kmeans.py, cart.py). numpy's own code runs over arrays of
symbolic numbers; on replay it is numpy over floats."""
import math
import itertools
import numbers

from harness.lib import *
from harness import npobj
from harness.npobj import shim, table, vector

D = "double"


# ---------------------------------------------------------------- k-means

def similarity(c, kind, a, b):
    if kind == "absDiff":
        return abs(a - b)
    return math.exp(-math.log(2) * (a - b) * (a - b) / 4.0)


def distance(c, metric, sim, x, y):
    s = [similarity(c, sim, a, b) for a, b in zip(x, y)]
    if metric == "euclidean":
        return math.sqrt(sum([v * v for v in s], 0.0))
    if metric == "squaredEuclidean":
        return sum([v * v for v in s], 0.0)
    if metric == "chebyshev":
        m = s[0]
        for v in s[1:]:
            if v > m:
                m = v
        return m
    if metric == "taxicab":
        return sum(s, 0.0)
    return math.sqrt(sum([v * v for v in s], 0.0))         # Minkowski of power 2


METRICS = ("euclidean", "squaredEuclidean", "chebyshev", "taxicab", "minkowski")


def make_metric(metric, sim):
    from titus.producer import kmeans as K
    s = K.AbsDiff() if sim == "absDiff" else K.GaussianSimilarity(2.0)
    if metric == "minkowski":
        return K.Minkowski(s, 2)
    return {"euclidean": K.Euclidean, "squaredEuclidean": K.SquaredEuclidean, "chebyshev": K.Chebyshev, "taxicab": K.Taxicab}[metric](s)


def blank(c, data, weights, metric, clusters, minPoints=None):
    from titus.producer import kmeans as K
    k = K.KMeans.__new__(K.KMeans)
    k.dataset = table(c, data)
    k.weights = None if weights is None else vector(c, weights)
    k.metric = metric
    k.numberOfClusters = len(clusters)
    k.clusters = [vector(c, x) for x in clusters]
    k.minPointsInCluster, k.maxPointsForClustering = minPoints, None
    k.uniques = k.dataset
    return k


def iterate(metric, dims, weighted, minPoints, n=3, sim="absDiff"):
    def fn(c, env):
        from titus.producer import kmeans as K
        data = [[c.real("x%d.%d" % (i, j), -8, 8) for j in range(dims)] for i in range(n)]
        w = [c.real("w%d" % i, 0, 4) for i in range(n)] if weighted else None
        start = [[0.0, 1.0][:dims], [2.5, -1.0][:dims]]
        km = blank(c, data, w, make_metric(metric, sim), start, minPoints)
        jumped = []

        def newCluster():
            jumped.append(None)
            return vector(c, [100.0 + len(jumped)] * dims)
        km.newCluster = newCluster
        seen = []

        def condition(iteration, corrections, values, size):
            seen.append((iteration, list(corrections), list(values), size))
            return "verdict"
        with shim(c, K):
            closest = [int(i) for i in km.closestCluster()]
            out = km.iterate(km.dataset, km.weights, 7, condition)
        c.check(len(closest) == n, "k-means: every point is assigned")
        for i in range(n):
            ds = [distance(c, metric, sim, data[i], s) for s in start]
            c.check(c.and_(*[c.le(ds[closest[i]], d + 1e-9) for d in ds]), "k-means: assigned to a closest cluster")
        c.check(out == "verdict" and len(seen) == 1 and seen[0][0] == 7 and seen[0][3] == n, "k-means: the stopping condition decides")
        corr, vals = seen[0][1], seen[0][2]
        c.check(len(corr) == 2 and len(vals) == 2, "k-means: one correction per cluster")
        for k in range(2):
            mine = [i for i in range(n) if closest[i] == k]
            total = sum([w[i] for i in mine], 0.0) if weighted else float(len(mine))
            got = [v for v in km.clusters[k]]
            few = minPoints is not None and len(mine) < minPoints
            if few or len(mine) == 0 or total == 0:
                c.check(corr[k] is None and vals[k] is None, "k-means: a cluster without points jumps")
                c.check(len(got) == dims and got[0] >= 100, "k-means: a cluster without points is replaced")
            else:
                if corr[k] is None:
                    c.fail("k-means: a cluster with points must not jump")
                    continue
                for j in range(dims):
                    s = sum([(w[i] if weighted else 1.0) * data[i][j] for i in mine], 0.0)
                    c.check(c.eq(got[j] * total, s, 1e-6), "k-means: moves to the mean of its points")
                    c.check(c.eq(corr[k][j] + start[k][j], got[j], 1e-6), "k-means: the correction is the displacement")
                    c.check(c.eq(vals[k][j], got[j], 1e-9), "k-means: the value is the center")
    return Job("iterate %s %s %d-d%s%s" % (metric, sim, dims, " weights" if weighted else "", " at least %d points" % minPoints if minPoints else ""),
               fn, lambda: True, limit=60, qms=4000, bound="%d points, two concrete centers" % n)


def population(sort):
    def fn(c, env):
        from titus.producer import kmeans as K
        data = [[c.real("x%d" % i, -8, 8)] for i in range(2)] + [[0.5]]
        centers = [[c.real("k0", -4, 4)], [c.real("k1", -4, 4)], [1.0]]
        km = blank(c, data, None, make_metric("taxicab", "absDiff"), centers)
        with shim(c, K):
            closest = [int(i) for i in km.closestCluster()]
            out = list(km.pfaValue(["a", "b", "c"], populations=True, sort=sort))
            plain = list(km.pfaValue(["a", "b", "c"], sort=sort))
        c.check([o["id"] for o in out] == ["a", "b", "c"] and [o["id"] for o in plain] == ["a", "b", "c"], "k-means: identifiers in the given order")
        c.check(all(set(o) == {"id", "center"} for o in plain), "k-means: only the requested fields")
        want = [(centers[k][0], sum(1 for i in closest if i == k)) for k in range(3)]
        for i, o in enumerate(out):
            c.check(len(o["center"]) == 1, "k-means: centers have the right dimension")
            c.check(c.or_(*[c.and_(o["center"][0] == a, o["population"] == p) for a, p in want]), "k-means: each population belongs to its center")
            c.check(plain[i]["center"][0] == o["center"][0], "k-means: same order with and without populations")
            if sort and i:
                c.check(out[i - 1]["center"][0] <= o["center"][0], "k-means: centers are sorted")
            if not sort:
                c.check(o["center"][0] == want[i][0] and o["population"] == want[i][1], "k-means: unsorted order is kept")
        c.check(sum(o["population"] for o in out) == 3, "k-means: populations add up")
    return Job("population %s" % ("sorted" if sort else "unsorted"), fn, lambda: True, limit=60, qms=4000, bound="three points, three clusters (one of each concrete)")


def stopping():
    def fn(c, env):
        from titus.producer import kmeans as K
        n = 3
        corr, vals = [], []
        for k in range(n):
            if c.choice("jump%d" % k, [False, True]):
                corr.append(None)
                vals.append(None)
            else:
                corr.append([c.real("c%d.%d" % (k, j), -2, 2) for j in range(2 if k == 0 else 1)])
                vals.append([0.0])
        it = c.int("iteration", 0, 50)
        arrs = [None if x is None else vector(c, x) for x in corr]
        t = c.real("t", 0, 2)
        args = (it, arrs, vals, 10)
        with shim(c, K):
            got = dict(jumped=K.clusterJumped()(*args), all=K.allChange(t)(*args), max=K.maxIterations(10)(*args), moving=K.moving()(*args),
                       both=K.whileall(K.clusterJumped(), K.maxIterations(10))(*args), any=K.whileany(K.clusterJumped(), K.maxIterations(10))(*args))
            if any(x is not None for x in corr):
                got["half"] = K.halfChange(t)(*args)
        small = [all(abs(v) < t for v in x) for x in corr if x is not None]
        still = all(x is not None for x in corr)
        c.check(bool(got["jumped"]) == still, "stopping: clusterJumped")
        c.check(bool(got["all"]) == (not all(small)), "stopping: allChange")
        c.check(bool(got["max"]) == (it < 10), "stopping: maxIterations")
        c.check(bool(got["both"]) == (still and it < 10), "stopping: whileall")
        c.check(bool(got["any"]) == (still or it < 10), "stopping: whileany")
        tiny = all(all(abs(v) < 1e-15 for v in x) for x in corr if x is not None)
        c.check(bool(got["moving"]) == (still and not tiny), "stopping: moving")
        if "half" in got:
            c.check(bool(got["half"]) == (2 * sum(1 for s in small if s) < len(small)), "stopping: halfChange")
    return Job("stopping conditions", fn, lambda: True, limit=60, qms=4000, bound="three clusters, corrections of up to two components")


CENTERS = {1: [[-2.0], [0.5], [3.0]], 2: [[-2.0, 1.0], [0.5, -0.5], [3.0, 2.0]]}


def clusterdoc(metric, sim, dims, populations):
    def setup():
        import numpy
        from titus.producer import kmeans as K
        k = K.KMeans.__new__(K.KMeans)
        k.dataset = numpy.array(CENTERS[dims] + [[9.0] * dims])
        k.weights, k.metric = None, make_metric(metric, sim)
        k.numberOfClusters = 3
        k.clusters = [numpy.array(x) for x in reversed(CENTERS[dims])]
        doc = k.pfaDocument("C", ["a", "b", "c"], populations=populations)
        return make_engine(doc)

    def fn(c, env):
        x = [c.real("x%d" % j, -6, 6) for j in range(dims)]
        got = act(env, x)
        if got[0] != "ok" or got[1] not in ("a", "b", "c"):
            return c.fail("cluster document: unexpected outcome %s" % (got,))
        ds = [distance(c, metric, sim, x, k) for k in CENTERS[dims]]
        i = ["a", "b", "c"].index(got[1])
        c.check(c.and_(*[c.le(ds[i], d + 1e-7) for d in ds]), "cluster document: picks the closest center")
    return Job("cluster document %s %s %d-d%s" % (metric, sim, dims, " populations" if populations else ""), fn, setup, limit=60, qms=4000, bound="three concrete centers")


def seeding():
    """initial clusters are points of the dataset, different from each other, and independent of it"""
    def fn(c, env):
        import random
        from titus.producer import kmeans as K
        data = [[0.0, 1.0], [2.0, 3.0], [0.0, 1.0], [5.0, 1.0], [2.0, 4.0]]
        k = c.choice("k", [1, 2, 3])
        draws = [0]
        old = random.randint

        def randint(a, b):
            draws[0] += 1
            c.assume(draws[0] <= 4)
            return c.choice("draw%d" % draws[0], list(range(a, b + 1)))
        random.randint = randint
        try:
            import numpy
            a = numpy.array(data)
            km = K.KMeans(k, a)
        finally:
            random.randint = old
        got = [list(map(float, x)) for x in km.clusters]
        c.check(len(got) == k and all(x in data for x in got), "k-means: starts at points of the dataset")
        c.check(all(got[i] != got[j] for i in range(k) for j in range(i)), "k-means: starts at different points")
        c.check(km.uniques.shape[0] == 4, "k-means: distinct points counted once")
        for x in km.clusters:
            x += 1
        c.check(a.tolist() == data and km.uniques.min() == 0.0, "k-means: moving a cluster leaves the dataset alone")
    return Job("seeding", fn, lambda: True, limit=60, bound="five points, up to four draws")


def subset():
    def fn(c, env):
        import random, numpy
        from titus.producer import kmeans as K
        data = [[float(i)] for i in range(5)]
        km = blank(c, data, [1.0, 2.0, 3.0, 4.0, 5.0], make_metric("euclidean", "absDiff"), [[0.0], [1.0]])
        n = c.choice("n", [1, 2, 3, 4])
        old = random.sample

        def sample(xs, k):
            xs, out = list(xs), []
            for i in range(k):
                out.append(xs.pop(c.choice("s%d" % i, list(range(len(xs))))))
            return out
        random.sample = sample
        try:
            try:
                got = ("ok", km.randomSubset(n))
            except TypeError:
                got = ("refused",)
        finally:
            random.sample = old
        if n <= 2:
            return c.check(got[0] != "ok", "k-means: a subset must be larger than the number of clusters")
        if got[0] != "ok":
            return c.fail("k-means: subset refused")
        d, w = got[1]
        rows = [float(x[0]) for x in d]
        c.check(len(rows) == n and len(set(rows)) == n and all([x] in data for x in rows), "k-means: a subset has distinct rows of the dataset")
        c.check([float(x) for x in w] == [x + 1 for x in rows], "k-means: weights stay with their rows")
    return Job("random subset", fn, lambda: True, limit=60, bound="five points")


# ---------------------------------------------------------------- trees

def field(c, tpe, values):
    from titus.producer import cart
    f = cart.Dataset.Field(tpe)
    for v in values:
        f.add(v)
    return f.toNumpy()


def impurity(c, numeric, ys):
    """n times the variance / entropy"""
    n = len(ys)
    if n == 0:
        return 0.0
    if numeric:
        s = sum(ys, 0.0)
        return sum([y * y for y in ys], 0.0) - s * s / n
    h = 0.0
    for k in sorted(set(ys)):
        f = ys.count(k) / n
        h -= f * math.log(f) / math.log(2)
    return h


def gain(c, numeric, ys, into):
    a = [y for y, p in zip(ys, into) if p]
    b = [y for y, p in zip(ys, into) if not p]
    if numeric:
        return impurity(c, True, ys) - impurity(c, True, a) - impurity(c, True, b)
    n = len(ys)
    return impurity(c, False, ys) - len(a) / n * impurity(c, False, a) - len(b) / n * impurity(c, False, b)


def divisions(xs, numeric, limit):
    """every way of dividing the rows by one predictor, into two non-empty parts"""
    out = []
    if numeric:
        for x in xs:
            d = [v <= x for v in xs]
            if not all(d) and d not in out:
                out.append(d)
    else:
        cats = sorted(set(xs))
        most = (len(cats) + 1) // 2
        if limit is not None:
            most = min(most, limit)
        for k in range(1, most + 1):
            for cs in itertools.combinations(cats, k):
                d = [v in cs for v in xs]
                if not all(d) and d not in out:
                    out.append(d)
    return out


def judge(c, node, cols, ys, numeric, names, limit, top):
    """The split of node, given the rows which reach it; recursively."""
    n = len(ys)
    leaf = not hasattr(node, "passBranch")
    c.check(node.datasetSize == n, "tree: every row reaches exactly one leaf")
    all_ = []
    for col, num in cols:
        for d in divisions(col, num, limit):
            all_.append(d)
    if numeric:
        c.check(c.eq(node.score() * n, sum(ys, 0.0), 1e-6), "tree: the score is the mean")
        pure = all(y == ys[0] for y in ys)
    else:
        best = max(ys.count(y) for y in ys)
        c.check(ys.count(node.score()) == best, "tree: the score is the most frequent class")
        pure = len(set(ys)) == 1
        for i, f in enumerate(node.predictandDistribution):
            c.check(abs(f - ys.count(node.predictand.intToStr[i]) / n) < 1e-9, "tree: the distribution is the relative frequencies")
    if pure:
        return c.check(leaf, "tree: a pure node is a leaf")
    gains = [gain(c, numeric, ys, d) for d in all_]
    if leaf:
        # no division improves
        return c.check(c.and_(*[c.le(g, 1e-6) for g in gains]), "tree: a leaf cannot be improved") if gains else None
    fi = node.fieldIndex
    col, num = cols[fi]
    c.check(node.splitField() == names[fi], "tree: names the field it splits")
    if num:
        into = [bool(v <= node.split) for v in col]
    else:
        cs = [node.field.intToStr[int(i)] for i in node.split]
        into = [v in cs for v in col]
        c.check(limit is None or len(cs) <= limit, "tree: subset size limit")
    c.check(any(into) and not all(into), "tree: a split divides the rows")
    mine = gain(c, numeric, ys, into)
    c.check(c.and_(*[c.le(g, mine + 1e-6) for g in gains]), "tree: no other division is better")
    c.check(c.eq(node.gain, mine, 1e-6), "tree: the gain is the decrease of impurity")
    c.check(c.eq(node.nTimesVariance if numeric else node.entropy, impurity(c, numeric, ys), 1e-6), "tree: the impurity of the node")
    for branch, side in ((node.passBranch, True), (node.failBranch, False)):
        sub = [([v for v, p in zip(col_, into) if p == side], num_) for col_, num_ in cols]
        judge(c, branch, sub, [y for y, p in zip(ys, into) if p == side], numeric, names, limit, False)


def grow(name, n, preds, target, limit, depth, free=None):
    """preds: kinds of the predictors ("x" symbolic numbers, "d" numbers from a few values, "s" strings); target: "y" symbolic numbers or "s" classes"""
    def fn(c, env):
        from titus.producer import cart
        cols = []
        for k, kind in enumerate(preds):
            if kind == "x":
                cols.append(([c.real("x%d.%d" % (k, i), -4, 4) for i in range(n)], True))
            elif kind == "d":
                cols.append(([float(c.choice("d%d.%d" % (k, i), [0, 1])) for i in range(n)], True))
            else:
                cols.append(([c.choice("s%d.%d" % (k, i), list("pqr")[:int(kind[1:] or 3)]) for i in range(n)], False))
        if target == "y":
            ys = [c.real("y%d" % i, -4, 4) if free is None or i in free else [1.0, 3.0, -2.0, 0.5][i] for i in range(n)]
        else:
            ys = [c.choice("c%d" % i, list("uvw")[:int(target[1:])]) for i in range(n)]
        names = ["f%d" % k for k in range(len(preds))]
        with shim(c, cart):
            fields = [field(c, numbers.Real if num else str, col) for col, num in cols]
            fields.insert(1, field(c, numbers.Real if target == "y" else str, ys))
            whole = cart.Dataset(fields, names[:1] + ["target"] + names[1:])
            tree = cart.TreeNode.fromWholeDataset(whole, "target", limit)
            if depth is None:
                tree.splitComplete()
            else:
                tree.splitMaxDepth(depth)
            c.check(tree.dataset.names == names, "tree: the predictand is not a predictor")
            if depth == 1 and hasattr(tree, "passBranch"):
                c.check(not hasattr(tree.passBranch, "passBranch") and not hasattr(tree.failBranch, "passBranch"), "tree: the depth is limited")
                judge1(c, tree, cols, ys, target == "y", names, limit)
            else:
                judge(c, tree, cols, ys, target == "y", names, limit, True)
            walk(c, tree, cols, ys, names, target == "y", limit)
    return Job("tree " + name, fn, lambda: True, limit=100, qms=5000, bound="%d rows" % n)


def judge1(c, tree, cols, ys, numeric, names, limit):
    # branches of a tree of limited depth need not be split: look at the root only
    p, f = tree.passBranch, tree.failBranch
    old = judge

    class Root(object):
        pass
    r = Root()
    r.__dict__.update((k, v) for k, v in tree.__dict__.items() if k not in ("passBranch", "failBranch"))
    gains = [gain(c, numeric, ys, d) for col, num in cols for d in divisions(col, num, limit)]
    col, num = cols[tree.fieldIndex]
    into = [bool(v <= tree.split) for v in col] if num else [v in [tree.field.intToStr[int(i)] for i in tree.split] for v in col]
    mine = gain(c, numeric, ys, into)
    c.check(p.datasetSize == sum(1 for b in into if b) and f.datasetSize == len(ys) - p.datasetSize, "tree: branches share the rows")
    c.check(c.and_(*[c.le(g, mine + 1e-6) for g in gains]), "tree: no other division is better")
    c.check(c.eq(tree.gain, mine, 1e-6), "tree: the gain is the decrease of impurity")


def walk(c, tree, cols, ys, names, numeric, limit):
    """the exported tree gives every training row the score of the leaf it fell into"""
    if not hasattr(tree, "passBranch"):
        return
    fields = [{"name": nm, "type": D if num else "string"} for nm, (col, num) in zip(names, cols)]
    doc = tree.pfaValue({"type": "record", "name": "Datum", "fields": fields}, "T")
    key = "double" if numeric else "string"
    where = []
    for i in range(len(ys)):
        at, path = {"T": doc}, ()
        while "T" in at:
            t = at["T"]
            v = cols[names.index(t["field"])][0][i]
            val = t["value"]
            if isinstance(val, dict):
                (k, val), = val.items()
                c.check(k == (D if t["operator"] == "<=" else "string" if t["operator"] == "==" else "array"), "tree: tag of the value")
            ok = v <= val if t["operator"] == "<=" else v == val if t["operator"] == "==" else v in val
            c.check((t["operator"] == "==") == (limit == 1 and isinstance(v, str)), "tree: operator")
            ok = bool(ok)
            path += (ok,)
            at = t["pass" if ok else "fail"]
        c.check(list(at) == [key], "tree: leaf score")
        where.append((path, at[key]))
    for path, s in where:
        mine = [y for y, (q, _) in zip(ys, where) if q == path]
        if numeric:
            c.check(c.eq(s * len(mine), sum(mine, 0.0), 1e-6), "tree: the exported leaf is the mean of its rows")
        else:
            c.check(mine.count(s) == max(mine.count(y) for y in mine), "tree: the exported leaf is the most frequent class of its rows")


TRAIN = {
    "numbers": (["x", "z"], [[1.0, 5.0], [2.0, 5.5], [3.0, 1.0], [4.0, 1.5], [4.5, 7.0]], [1.0, 2.0, 6.0, 6.5, 9.0]),
    "strings": (["x", "z"], [["p", "u"], ["q", "u"], ["r", "v"], ["q", "w"], ["r", "u"]], [1.0, 2.0, 6.0, 6.5, 9.0]),
    "mixed": (["x", "z"], [[1.0, "u"], [2.0, "v"], [3.0, "u"], [4.0, "w"], [4.5, "v"]], [1.0, 5.0, 2.0, 6.5, 4.0]),
}
CLASSES = ["A", "A", "B", "C", "B"]


def treedoc(train, classes, limit, full):
    names, rows, ys = TRAIN[train]
    if classes:
        ys = CLASSES
    types = [D if isinstance(v, float) else "string" for v in rows[0]]

    def setup():
        from titus.producer import cart
        cart.numpy.seterr(all="ignore")
        ds = cart.Dataset.fromIterable([r + [y] for r, y in zip(rows, ys)], names=names + ["t"])
        tree = cart.TreeNode.fromWholeDataset(ds, "t", limit)
        tree.splitComplete()
        opts = {}
        if full:
            opts = dict(nodeScores=True, datasetSize=True, predictandUnique=True, gain=True)
            opts.update(dict(predictandDistribution=True, entropy=True) if classes else dict(nTimesVariance=True))
        doc = tree.pfaDocument({"type": "record", "name": "Datum", "fields": [{"name": a, "type": t} for a, t in zip(names, types)]}, "T", **opts)
        return make_engine(doc), tree

    def fn(c, env):
        engine, tree = env
        d = {}
        for nm, t in zip(names, types):
            d[nm] = c.real(nm, -2, 10) if t == D else c.choice(nm, ["p", "q", "r", "u", "v", "w", "other"])
        got = act(engine, d)
        at = tree
        while hasattr(at, "passBranch"):
            v = d[at.splitField()]
            if isinstance(v, str):
                ok = v in [at.field.intToStr[int(i)] for i in at.split]
            else:
                ok = v <= float(at.split)
            at = at.passBranch if ok else at.failBranch
        if got[0] != "ok":
            return c.fail("tree document: unexpected error %s" % (got[1],))
        if classes:
            c.check(got[1] == at.score(), "tree document: score of the leaf")
        else:
            c.check(c.eq(got[1], float(at.score()), 1e-9), "tree document: score of the leaf")
    return Job("tree document %s %s%s%s" % (train, "classes" if classes else "numbers", " ==" if limit == 1 else "", " full" if full else ""), fn, setup, limit=60,
               bound="five concrete training rows, any datum")


def jobs(tier):
    deep = tier == "thorough"
    out = []
    for m in METRICS:
        out.append(iterate(m, 1, False, None))
        if deep:
            out.append(iterate(m, 2, True, 2))
    out.append(iterate("squaredEuclidean", 2, True, None, n=2))
    out.append(iterate("taxicab", 1, True, None))
    out.append(iterate("taxicab", 2, False, 2))
    out.append(iterate("chebyshev", 2, True, 1, n=2))
    out.append(iterate("squaredEuclidean", 1, False, None, sim="gaussian"))
    if deep:
        out.append(iterate("squaredEuclidean", 2, True, None, n=4))
        out.append(iterate("taxicab", 2, True, 2, n=4))
    out += [population(False), population(True), stopping(), seeding(), subset()]
    for m in METRICS:
        out.append(clusterdoc(m, "absDiff", 1, False))
        out.append(clusterdoc(m, "absDiff", 2, m == "euclidean"))
        if m != "minkowski":
            out.append(clusterdoc(m, "gaussian", 1, True))
    out.append(grow("numbers by numbers", 3, ["x"], "y", None, None))
    out.append(grow("numbers by two numbers", 3, ["x", "d"], "y", None, None, free=(1, 2)))
    out.append(grow("numbers by strings", 3, ["s3"], "y", None, None))
    out.append(grow("numbers by strings ==", 3, ["s2", "s2"], "y", 1, None, free=(0, 1)))
    out.append(grow("numbers by both", 3, ["x", "s2"], "y", None, None, free=(0,)))
    out.append(grow("classes by numbers", 4, ["x"], "s2", None, None))
    out.append(grow("classes by two numbers", 3, ["x", "d"], "s3", None, None))
    out.append(grow("classes by strings", 4, ["s3"], "s2", None, None))
    out.append(grow("classes by strings ==", 4, ["s3"], "s2", 1, None))
    out.append(grow("classes by both", 3, ["x", "s3"], "s2", None, None))
    out.append(grow("classes depth 1", 4, ["x"], "s2", None, 1))
    if deep:
        out.append(grow("numbers by four numbers", 4, ["x"], "y", None, None, free=(1, 2)))
        out.append(grow("numbers by four strings", 4, ["s3"], "y", None, None, free=(1, 2)))
        out.append(grow("classes by five numbers", 5, ["x"], "s2", None, None))
        out.append(grow("classes by five strings", 5, ["s3"], "s2", None, None))
    for t in TRAIN:
        for classes in (False, True):
            for full in (False, True):
                out.append(treedoc(t, classes, None, full))
            if t != "numbers":
                out.append(treedoc(t, classes, 1, True))
    return out
