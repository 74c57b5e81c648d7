#!/usr/bin/env python3
"""A check with the specification-only runs cached and an incremental build: for mutation studies only.
fastcheck.py VERIF REPO CACHE ID      exit as run.py"""
import sys, os, hashlib, pickle, subprocess, importlib
V, R, C, pid = sys.argv[1:5]
os.environ["VERIF_REPO"] = R
sys.path.insert(0, V); os.makedirs(C, exist_ok=True); os.chdir(V)
from lib import core
def build():
    b = C + "/build"
    if not os.path.exists(b + "/build.ninja"):
        os.makedirs(b, exist_ok=True)
        subprocess.run(["cmake", "-G", "Ninja", "-DCMAKE_CXX_COMPILER=g++", "-DREPO=" + R, V + "/harness"], cwd=b, capture_output=True, check=True)
    r = subprocess.run(["ninja"], cwd=b, capture_output=True, text=True)
    if r.returncode: raise core.ToolError("harness build failed\n" + r.stdout[-2000:])
    return b + "/harness"
core.build_harness = build
TH = core.tree_hash([V + "/tla"])
class X(core.Ctx):
    def cached(s, f, a, k):
        key = C + "/" + hashlib.sha256(repr((TH, pid, a, sorted(k.items()))).encode()).hexdigest()[:24]
        if os.path.exists(key): return pickle.load(open(key, "rb"))
        r = f(*a, **k)
        pickle.dump(r, open(key, "wb"))
        return r
    def model(s, *a, **k): s.states += 1; return s.cached(super().model, a, k)
    def refuted(s, *a, **k): return s.cached(super().refuted, a, k)
ctx = X(pid, "quick", int(os.environ.get("VERIF_SEED", "1")))
try:
    importlib.import_module("checks." + pid).run(ctx)
    rc = ctx.finish()
except core.ToolError as e:
    print("ERROR: %s" % e); rc = 3
finally:
    ctx.cleanup()
sys.exit(rc)
