"""Check driver: run.py <PROPERTY> [quick|thorough]"""
import importlib
import json
import multiprocessing
import os
import subprocess
import sys
import tempfile
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from sx import boot

VERIF = boot.VERIF
PYPY = "/opt/venv/bin/python"


def load_known(prop):
    out = []
    p = os.path.join(VERIF, "known_findings.jsonl")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("{"):
                d = json.loads(line)
                if d["property"] == prop:
                    out.append(d)
    return out


def run_job(args):
    modname, name, tier, known, limit_scale, seed = args
    from sx import core
    from sx.api import SymCtx
    mod = importlib.import_module("harness." + modname)
    t0 = time.time()
    try:
        j = JOBS[(modname, name)]
        try:
            env = j.setup() if j.setup else None
        except Exception as e:
            from sx import replay as rp
            if not rp.in_repo(e):
                raise
            from sx import core as _c
            st = SymCtx().stats
            return dict(module=modname, job=name, mode=j.mode, bound=j.bound, stats=st, labels={"setup": [1, 0, 1]}, cuts={},
                        cexs=[dict(label="setup raised %s: %s" % (type(e).__name__, str(e)[:200]), cands=[{}], detail="")], samples=[], functions=[], setup_s=0.0, wall=time.time() - t0, error=None)
        t_setup = time.time() - t0
        c = SymCtx(mode=j.mode, query_timeout_ms=j.qms, max_paths=j.max_paths, time_limit=j.limit * limit_scale, tier=tier, seed=seed, **j.kw)
        c.known_ids = frozenset(known)
        if j.stubs:
            c.stubs = j.stubs(c) if callable(j.stubs) else dict(j.stubs)
        fn = (lambda ctx: j.fn(ctx, env)) if j.setup else j.fn
        c.explore(fn)
        return dict(module=modname, job=name, mode=j.mode, bound=j.bound, stats=c.stats, labels=c.labels, cuts=c.cut_reasons,
                    cexs=[dict(label=x.label, cands=x.inputs, detail=x.detail) for x in c.cexs],
                    samples=[dict(inputs=a, obs=o) for a, o in c.samples], functions=sorted(c.functions), setup_s=t_setup, wall=time.time() - t0, error=None)
    except BaseException as e:
        return dict(module=modname, job=name, error="%s: %s" % (type(e).__name__, e), tb=traceback.format_exc()[-3000:], wall=time.time() - t0)


JOBS = {}


def _worker(tasks, q):
    for i, t in iter(tasks.get, None):
        q.put(("start", i, os.getpid()))
        q.put(("done", i, run_job(t)))
    q.put(("exit", None, os.getpid()))


def run_all(tasks, nproc):
    ctx = multiprocessing.get_context("fork")
    tq, rq = ctx.Queue(), ctx.Queue()
    for i, t in enumerate(tasks):
        tq.put((i, t))
    procs = []

    def spawn():
        tq.put(None)
        p = ctx.Process(target=_worker, args=(tq, rq))
        p.daemon = True
        p.start()
        procs.append(p)
    for _ in range(min(nproc, max(1, len(tasks)))):
        spawn()
    results, running, done = {}, {}, 0
    import queue
    while len(results) < len(tasks):
        try:
            kind, i, x = rq.get(timeout=2)
        except queue.Empty:
            for p in procs:
                if not p.is_alive() and p.exitcode not in (0, None) and p.pid in running:
                    i = running.pop(p.pid)
                    results[i] = dict(module=tasks[i][0], job=tasks[i][1], error="worker died (exit %s)" % p.exitcode, wall=0.0, tb="")
                    spawn()
            if not any(p.is_alive() for p in procs) and rq.empty():
                for i, t in enumerate(tasks):
                    results.setdefault(i, dict(module=t[0], job=t[1], error="not run", wall=0.0, tb=""))
            continue
        if kind == "start":
            running[x] = i
        elif kind == "done":
            results[i] = x
            for pid, k in list(running.items()):
                if k == i:
                    del running[pid]
    for p in procs:
        p.terminate()
    return [results[i] for i in range(len(tasks))]


def replay(reqs, timeout=300):
    if not reqs:
        return []
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", OPENBLAS_NUM_THREADS="1", LANG="C.UTF-8", LC_ALL="C.UTF-8", TZ="UTC", PYTHONNOUSERSITE="1")
    env.pop("PYTHONPATH", None)
    env.pop("PYTHONHOME", None)
    nproc = min(8, 1 + len(reqs) // 40)
    chunks = [[] for _ in range(nproc)]
    # keep requests of one job together: engines are built once
    bykey = {}
    for i, r in enumerate(reqs):
        r["id"] = i
        bykey.setdefault((r["module"], r["job"]), []).append(r)
    for k, (key, rs) in enumerate(sorted(bykey.items())):
        chunks[k % nproc] += rs
    procs = []
    for ch in chunks:
        f = tempfile.TemporaryFile("w+")
        for r in ch:
            f.write(json.dumps(r) + "\n")
        f.seek(0)
        o = tempfile.TemporaryFile("w+")
        procs.append((subprocess.Popen([PYPY, os.path.join(VERIF, "sx", "replay.py")], stdin=f, stdout=o, stderr=subprocess.DEVNULL, env=env, cwd="/"), o))
    out = [None] * len(reqs)
    end = time.time() + timeout
    for p, o in procs:
        try:
            p.wait(max(1, end - time.time()))
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
        o.seek(0)
        for line in o:
            try:
                r = json.loads(line)
            except ValueError:
                continue
            out[r["id"]] = r
    return [x if x is not None else {"result": "error", "label": "no answer from replay"} for x in out]


def obs_match(sym, conc, mode):
    """None when equal; else description"""
    if len(sym) != len(conc):
        return "different number of observations"

    def m(a, b):
        if a == "?" or b == "?":
            return True
        if isinstance(a, bool) or isinstance(b, bool):
            return a is b
        if isinstance(a, float) and (a != a or a in (float("inf"), float("-inf"))):
            a = repr(a)
        if isinstance(a, (int, float)) and isinstance(b, (int, float)):
            return a == b or abs(a - b) <= 1e-6 * max(1.0, abs(a), abs(b))
        if isinstance(a, dict) and isinstance(b, dict):
            return set(a) == set(b) and all(m(a[k], b[k]) for k in a)
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
            return len(a) == len(b) and all(m(x, y) for x, y in zip(a, b))
        return a == b
    for (n, a), (n2, b) in zip(sym, conc):
        if n != n2 or not m(a, b):
            return "%s: encoded %r, real %r" % (n, a, b)
    return None


def main(argv):
    t0 = time.time()
    prop = argv[1]
    tier = argv[2] if len(argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    only = argv[3] if len(argv) > 3 else None
    verbose = bool(os.environ.get("SX_VERBOSE"))
    boot.boot()
    import harness.registry as registry
    entry = registry.PROPERTIES[prop]
    findings = load_known(prop)
    known = [d["id"] for d in findings]
    tasks = []
    for modname in entry["modules"]:
        mod = importlib.import_module("harness." + modname)
        for j in mod.jobs(tier):
            if only and only not in j.name:
                continue
            if (modname, j.name) in JOBS:
                raise SystemExit("duplicate job " + j.name)
            JOBS[(modname, j.name)] = j
            tasks.append((modname, j.name, tier, known, 1.0, seed))
    # longest limit first
    tasks.sort(key=lambda t: -JOBS[(t[0], t[1])].limit)
    # warm instrumented modules before forking so that children share them
    if hasattr(mod, "warm"):
        mod.warm()
    nproc = int(os.environ.get("SX_PROCS", "8"))
    results = run_all(tasks, nproc)
    t_sym = time.time() - t0

    # ---- replay counterexamples and validation samples on the real interpreter
    reqs, meta = [], []
    for r in results:
        if r.get("error"):
            continue
        for ci, x in enumerate(r["cexs"]):
            for cand in x["cands"]:
                reqs.append(dict(module=r["module"], job=r["job"], inputs=cand, tier=tier, known=known))
                meta.append(("cex", r, x))
        for s in r["samples"]:
            reqs.append(dict(module=r["module"], job=r["job"], inputs=s["inputs"], tier=tier, known=known))
            meta.append(("sample", r, s))
    for d in findings:
        reqs.append(dict(module=d["module"], job=d["job"], inputs=d["inputs"], tier="thorough", known=[]))
        meta.append(("known", d, None))
    answers = replay(reqs)

    violations, unconfirmed, validated, mismatches, errors = [], [], 0, [], []
    status = {}
    for (kind, r, x), req, a in zip(meta, reqs, answers):
        if kind == "cex":
            k = id(x)
            st = status.setdefault(k, dict(r=r, x=x, ok=None, answers=[]))
            st["answers"].append(a)
            if a["result"] in ("violation", "exception") and st["ok"] is None:
                st["ok"] = (req, a)
        elif kind == "sample":
            if a["result"] == "ok":
                mm = obs_match(x["obs"], a["obs"], r["mode"])
                if mm:
                    mismatches.append("%s: %s inputs=%s" % (r["job"], mm, json.dumps(x["inputs"])[:300]))
                else:
                    validated += 1
            elif a["result"] in ("violation", "exception"):
                # the real code fails on an input the encoding passed: real evidence of a violation
                status.setdefault(id(x), dict(r=r, x=dict(label="validation run: " + a.get("label", ""), detail="found while validating the encoding"), ok=(req, a), answers=[a]))
            elif a["result"] == "error":
                errors.append("%s: replay %s" % (r["job"], a.get("label")))
            else:
                mismatches.append("%s: replay infeasible (%s) inputs=%s" % (r["job"], a.get("label"), json.dumps(x["inputs"])[:300]))
        else:
            if a["result"] in ("violation", "exception"):
                print("KNOWN-FINDING: property=%s %s" % (prop, r["what"]))
            else:
                print("note: listed finding %s no longer reproduces (%s)" % (r["id"], a["result"]))
    rdir = os.path.join(VERIF, "evidence", "replay", prop)
    n = 0
    seen = set()
    for st in status.values():
        if st["ok"]:
            key = (st["r"]["job"], st["x"]["label"])
            if key in seen:
                continue
            seen.add(key)
            req, a = st["ok"]
            os.makedirs(rdir, exist_ok=True)
            n += 1
            path = os.path.join(rdir, "%d.json" % n)
            with open(path, "w") as f:
                json.dump(dict(module=req["module"], job=req["job"], inputs=req["inputs"], tier=req["tier"], known=req["known"], label=a.get("label"), predicted=st["x"]["label"],
                               how="/opt/venv/bin/python /verif/sx/replay.py " + path), f, indent=1)
            violations.append((path, st["r"]["job"], a.get("label"), req["inputs"]))
        else:
            unconfirmed.append("%s: %s (%s) -> %s" % (st["r"]["job"], st["x"]["label"], st["x"]["detail"], [(y["result"], y.get("label", "")) for y in st["answers"]][:2]) + " inputs=" + json.dumps(st["x"].get("cands", [None])[0])[:400])
    for r in results:
        if r.get("error"):
            errors.append("%s: %s" % (r["job"], r["error"]))
            if verbose:
                print(r.get("tb"))

    # ---- vacuity: every job must complete at least one path and discharge/meet at least one obligation
    vac = []
    tot = {}
    funcs, labels, cuts, queries = set(), {}, {}, 0
    for r in results:
        if r.get("error"):
            continue
        for k, v in r["stats"].items():
            tot[k] = tot.get(k, 0) + v
        funcs.update(r["functions"])
        for k, v in r["labels"].items():
            l = labels.setdefault(k, [0, 0, 0])
            for i in range(3):
                l[i] += v[i]
        for k, v in r["cuts"].items():
            cuts[r["job"] + ": " + k] = cuts.get(r["job"] + ": " + k, 0) + v
        if r["stats"]["checks"] == 0 and not r["cexs"] and not r["stats"]["known_region_paths"]:
            vac.append(r["job"] + " " + json.dumps(r["cuts"])[:200])
    if tot.get("checks", 0) == 0 and not violations and not errors:
        errors.append("vacuous: no obligation was reached")

    incomplete = [r["job"] for r in results if not r.get("error") and r["stats"]["truncated"]]
    wall = time.time() - t0
    samples = []
    for r in results:
        if not r.get("error") and r["samples"]:
            samples.append(dict(job=r["job"], inputs=r["samples"][-1]["inputs"], observed=r["samples"][-1]["obs"]))
    ev = dict(property=prop, tier=tier, seed=seed, level=entry.get("level", "model_checking"),
              coverage=dict(
                  states=tot.get("paths", 0), transitions=tot.get("decisions", 0), traces_validated_against_impl=validated,
                  samples=samples[:6],
                  exhaustive=False,
                  explanation="Bounded symbolic execution of the real titus source (AST-instrumented at import, regenerated every run). states = execution paths explored, "
                              "transitions = symbolic branch decisions; each obligation is an SMT query over all inputs of its path.",
                  jobs=len(results), paths_completed=tot.get("completed", 0), paths_infeasible=tot.get("aborted", 0), paths_cut=tot.get("cut", 0),
                  obligations=tot.get("checks", 0), obligations_discharged=tot.get("discharged", 0), obligations_trivial=tot.get("trivially", 0),
                  obligations_unknown=tot.get("obligation_unknown", 0), solver_queries=tot.get("queries", 0), solver_s=round(tot.get("solver_s", 0.0), 2),
                  solver="z3 (python3-vt)", functions_encoded=sorted(funcs), obligations_by_label={k: dict(asked=v[0], discharged=v[1], failed=v[2]) for k, v in sorted(labels.items())},
                  bounds=sorted(set(r["bound"] for r in results if not r.get("error") and r.get("bound"))) + entry.get("bounds", []),
                  outside=entry.get("outside", []), cut_reasons=dict(sorted(cuts.items())[:60]), incomplete_jobs=incomplete, vacuous_jobs=vac,
                  encoding_mismatches=mismatches[:20], unconfirmed_counterexamples=unconfirmed[:20], symbolic_wall_s=round(t_sym, 2)),
              assumptions=entry.get("assumptions", []) + registry.COMMON_ASSUMPTIONS, wall_s=round(wall, 2), violations=len(violations))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    print("%s %s: %d jobs, %d paths (%d cut), %d obligations (%d discharged, %d unknown), %d queries, solver %.1fs, validated %d, wall %.1fs" % (
        prop, tier, len(results), tot.get("paths", 0), tot.get("cut", 0), tot.get("checks", 0), tot.get("discharged", 0), tot.get("obligation_unknown", 0),
        tot.get("queries", 0), tot.get("solver_s", 0.0), validated, wall))
    if verbose or os.environ.get("SX_JOBS"):
        for r in sorted(results, key=lambda r: -r["wall"]):
            print("  job %-50s wall %.1f %s" % (r["job"], r["wall"], r.get("error") or {k: v for k, v in r["stats"].items() if v}))
    for x in incomplete[:10]:
        print("incomplete (time/path bound): " + x)
    for x in sorted(cuts)[:30 if verbose else 6]:
        print("cut: %s x%d" % (x, cuts[x]))
    for x in vac[:20]:
        print("vacuous job: " + x)
    for x in mismatches[:20 if verbose else 5]:
        print("encoding mismatch: " + x)
    for path, job, label, inputs in violations:
        print("  %s: %s  inputs=%s" % (job, label, json.dumps(inputs)[:300]))
    for path, job, label, inputs in violations:
        print("VIOLATION property=%s replay=%s" % (prop, path))
    if violations:
        return 1
    rc = 0
    # a counterexample the real code does not reproduce is a limit of the encoding (uninterpreted functions, rounded constants):
    # the obligation stays undecided, which the evidence says; it is neither an alarm nor a failure of the check
    for x in unconfirmed[:20]:
        print("undecided (counterexample not reproduced by the real code): " + " ".join(x.split())[:300])
        if os.environ.get("SX_STRICT"):
            rc = 2
    for x in errors[:20]:
        print("error: " + x)
        rc = 2
    return rc


if __name__ == "__main__":
    if os.environ.get("PYTHONHASHSEED") != "0":
        # the order of sets of strings is part of a run's behaviour
        os.execve(sys.executable, [sys.executable] + sys.argv, dict(os.environ, PYTHONHASHSEED="0"))
    sys.stdout.reconfigure(line_buffering=True)
    rc = main(sys.argv)
    sys.stdout.flush()
    os._exit(rc)
