"""Create and confirm planted bugs:  python3 tools/mkseed.py SPECFILE [id ...]
SPECFILE (Python) defines SEEDS = [dict(id, property, edits=[(file, old, new)], demo=code, needs, what)].
Demo code sees `E(doc)` -> engine and `out(f, *a)` -> value or ('err', code)."""
import json, os, shutil, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PRE = '''import sys, json
sys.path.insert(0, ".")
sys.dont_write_bytecode = True
from titus.genpy import PFAEngine
from titus.errors import *
def E(doc, **kw):
    return PFAEngine.fromJson(doc, **kw)[0]
def run(doc, x):
    return out(E(doc).action, x)
def out(f, *a):
    try:
        return f(*a)
    except PFARuntimeException as e:
        return ("err", e.code)
    except PFAUserException as e:
        return ("user", e.code)
def call(params, ret, expr, **vals):
    return run({"input": {"type": "record", "name": "In", "fields": [{"name": n, "type": t} for n, t in params.items()]}, "output": ret, "action": expr}, vals)
def eq(a, b):
    if a != b:
        print("got", a, "want", b)
        sys.exit(1)
'''
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", HOME="/root")


R = "/tmp/mkseed-%d" % os.getpid()      # scratch copy of /repo


def sh(cmd, cwd=None):
    cwd = cwd or R
    return subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, env=ENV)


def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    only = sys.argv[2:]
    shutil.copytree("/repo", R)
    base = json.load(open("/opt/vp/BASELINE.json"))
    for s in ns["SEEDS"]:
        if only and s["id"] not in only:
            continue
        d = os.path.join(HERE, "seeded", s["id"])
        if os.path.exists(os.path.join(d, "meta.json")) and not only:
            continue
        os.makedirs(d, exist_ok=True)
        open(os.path.join(d, "demo.py"), "w").write(PRE + s["demo"] + "\n")
        open(os.path.join(d, "demo.sh"), "w").write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        try:
            assert not sh("git status --short").stdout.strip(), "repo dirty"
            for f, old, new in s["edits"]:
                p = os.path.join(R, f)
                t = open(p).read()
                assert t.count(old) == 1, (s["id"], f, "occurrences", t.count(old), old)
                open(p, "w").write(t.replace(old, new))
            patch = sh("git diff").stdout
            r = sh("timeout 300 bash %s/demo.sh" % d)
            bad = r.returncode
            b = sh("python3 -m compileall -q titus >/dev/null; find titus -name __pycache__ -prune -exec rm -rf {} +")
            out = R + ".json"
            t = sh("sed s#/repo#%s#g /opt/vp/test.sh > %s.sh && bash %s.sh %s" % (R, R, R, out))
            res = json.load(open(out))
        finally:
            sh("git checkout -- .")
            sh("find titus test -name __pycache__ -type d -prune -exec rm -rf {} +")
        r0 = sh("timeout 300 bash %s/demo.sh" % d)
        failed = failures(res, base)
        ok = bad != 0 and r0.returncode == 0 and b.returncode == 0 and not failed
        print(s["id"], "OK" if ok else "REJECTED", "demo patched", bad, "clean", r0.returncode, "build", b.returncode, "newly failing", failed[:3], (r0.stdout + r0.stderr)[-300:] if r0.returncode else "", flush=True)
        if ok:
            open(os.path.join(d, "patch.diff"), "w").write(patch)
            json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["what"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
        else:
            shutil.rmtree(d)


def names(x):
    if isinstance(x, dict):
        for k in ("passed", "stable", "tests"):
            if k in x:
                return set(x[k]) if isinstance(x[k], (list, dict)) else set()
        return set(k for k, v in x.items() if v in (True, "passed", "pass"))
    return set(x)


def failures(res, base):
    return sorted(names(base) - names(res))


try:
    main()
finally:
    shutil.rmtree(R, ignore_errors=True)
    for x in (".sh", ".json"):
        if os.path.exists(R + x):
            os.remove(R + x)
