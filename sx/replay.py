"""Replay assignments on the real, uninstrumented titus under the project's own interpreter (PyPy).
stdin: one JSON object per line {"module","job","inputs","tier","known"}; stdout: one JSON result per line.
With a file argument: replay the counterexample stored there and exit 1 if it reproduces."""
import importlib
import json
import os
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from sx import boot
from sx import concrete


def in_repo(e):
    """Did the exception originate in the code under test?"""
    tb = traceback.extract_tb(e.__traceback__)
    return any("/titus/" in f.filename and "/verif/" not in f.filename or f.filename == "<string>" for f in tb)



def one(req, cache={}):
    mod = importlib.import_module("harness." + req["module"])
    key = (req["module"], req["job"], req.get("tier"))
    if key not in cache:
        jobs = dict((j.name, j) for j in mod.jobs(req.get("tier", "quick")))
        if req["job"] not in jobs:
            jobs = dict((j.name, j) for j in mod.jobs("thorough"))
        j = jobs[req["job"]]
        try:
            cache[key] = (j, j.setup() if j.setup else None)
        except Exception as e:
            if not in_repo(e):
                raise
            cache[key] = (j, e)
    j, env = cache[key]
    if isinstance(env, Exception):
        return {"result": "exception", "label": "setup: %s: %s" % (type(env).__name__, str(env)[:300])}
    c = concrete.ConcCtx(req["inputs"], j.mode, req.get("tier", "quick"))
    c.known_ids = frozenset(req.get("known", ()))
    try:
        j.fn(c, env) if j.setup else j.fn(c)
        return {"result": "ok", "obs": [[n, concrete.conc(v)] for n, v in c.obs]}
    except concrete.Violation as e:
        return {"result": "violation", "label": e.label, "obs": [[n, concrete.conc(v)] for n, v in c.obs]}
    except concrete.Infeasible as e:
        return {"result": "infeasible", "label": str(e)}
    except Exception as e:
        return {"result": "exception", "label": "%s: %s" % (type(e).__name__, str(e)[:300]), "tb": traceback.format_exc()[-1500:]}


if __name__ == "__main__":
    boot.boot_concrete()
    if len(sys.argv) > 1:
        req = json.load(open(sys.argv[1]))
        r = one(req)
        print(json.dumps(r, indent=1))
        sys.exit(1 if r["result"] in ("violation", "exception") else 0)
    out = sys.stdout
    sys.stdout = sys.stderr
    for line in sys.stdin:
        line = line.strip()
        if not line:
            continue
        req = json.loads(line)
        try:
            r = one(req)
        except Exception as e:
            r = {"result": "error", "label": "%s: %s" % (type(e).__name__, e), "tb": traceback.format_exc()[-1500:]}
        r["id"] = req.get("id")
        out.write(json.dumps(r) + "\n")
        out.flush()
