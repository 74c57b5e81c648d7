#!/usr/bin/env python3
"""Plant a bug: plant.add(id, prop, file, [(old, new)], demo_body, needs, breaks) makes the change in a
scratch copy, requires that it builds, passes the baseline tests and that the demonstration tells it from
the unchanged tree, stores it in seeded/<id>/ and runs the property's quick check against the copy.

plant.py check [ids]    runs the property's check against every stored change again"""
import json, os, shutil, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "/tmp/seed"
R = S + "/repo"
DEMO = '''#!/bin/bash
# run in the repository after its build: exit 0 when the behaviour is right
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
g++ -std=c++17 -g -O1 -Isrc "$here/demo.cpp" _build/src/liblibCADTest.a -o "$tmp/demo" || exit 2
cd "$tmp" && timeout 120 ./demo
'''
HEAD = '''#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <string>
#include <vector>
%s
using namespace std;
#define CHECK(c) do { if (!(c)) { printf("wrong: %%s (line %%d)\\n", #c, __LINE__); return 1; } } while (0)
'''
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, errors="replace", **k)
def setup():
    if not os.path.exists(R):
        os.makedirs(S, exist_ok=True)
        sh("cp -a /repo %s && rm -rf %s/_build" % (R, R))
        os.makedirs(S + "/vp", exist_ok=True)
        for f in os.listdir("/opt/vp"):
            t = open("/opt/vp/" + f, encoding="utf8", errors="replace").read().replace("/repo", R).replace("/opt/vp", S + "/vp")
            open(S + "/vp/" + f, "w").write(t)
    sh("git -C %s checkout -q -- . && git -C %s fetch -q /repo HEAD && git -C %s reset -q --hard FETCH_HEAD" % (R, R, R))
def build(): 
    r = sh("bash %s/vp/build.sh" % S)
    return r.returncode == 0, r.stdout[-1500:] + r.stderr[-500:]
def tests():
    sh("bash %s/vp/test.sh %s/out.json" % (S, S))
    o = json.load(open(S + "/out.json")); b = json.load(open("/opt/vp/BASELINE.json"))
    for k in ("stable", "passed", "pass", "tests"):
        if k in b and isinstance(b[k], list): return sorted(set(b[k]) - set(o["passed"]))
    raise SystemExit("baseline? %s" % list(b))
def demo(d):
    c = S + "/demo"
    shutil.rmtree(c, ignore_errors=True); shutil.copytree(d, c)
    for f in os.listdir(c):
        if f.endswith((".diff", ".patch")) or f == "meta.json": os.remove(c + "/" + f)
    r = sh("bash %s/demo.sh" % c, cwd=R)
    return r.returncode, (r.stdout + r.stderr).strip()[-300:]
def check(pid):
    r = sh("python3 run.py %s quick" % pid, cwd=HERE, env=dict(os.environ, VERIF_REPO=R, VERIF_SEED="1", VERIF_TIER="quick"))
    return r.returncode, "\n".join(r.stdout.splitlines()[-6:])[-900:]
def add(id, prop, file, pairs, body, needs, breaks, includes=(), extra=None, run=True):
    setup()
    d = os.path.join(HERE, "seeded", id)
    if os.path.exists(d + "/patch.diff"):
        print("=== %s exists" % id); return
    fs = pairs if isinstance(pairs, dict) else {file: pairs}
    for f, ps in fs.items():
        raw = open(R + "/" + f, "rb").read().decode("latin1")
        crlf = "\r\n" in raw
        t = raw.replace("\r\n", "\n")
        for o, n in ps:
            if t.count(o) != 1: print("=== %s: %d matches of %r" % (id, t.count(o), o)); return
            t = t.replace(o, n)
        open(R + "/" + f, "wb").write((t.replace("\n", "\r\n") if crlf else t).encode("latin1"))
    diff = subprocess.run(["git", "-C", R, "diff", "--binary"], capture_output=True).stdout
    os.makedirs(d, exist_ok=True)
    open(d + "/patch.diff", "wb").write(diff)
    open(d + "/demo.sh", "w").write(DEMO); os.chmod(d + "/demo.sh", 0o755)
    open(d + "/demo.cpp", "w").write(HEAD % "\n".join('#include "%s"' % i for i in includes) + body + "\n")
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
    for n, t in (extra or {}).items(): open(d + "/" + n, "w").write(t)
    why = None
    ok, out = build()
    if not ok: why = "does not build\n" + out
    if not why:
        m = tests()
        if m: why = "fails tests %s" % m
    if not why:
        c, o = demo(d)
        if c in (0, 2): why = "demo with the change: %d %s" % (c, o)
    caught = None
    if not why and run: caught = check(prop)
    setup(); build()
    if not why:
        c, o = demo(d)
        if c != 0: why = "demo without the change: %d %s" % (c, o)
    if why:
        shutil.rmtree(d); print("=== %s REJECTED: %s" % (id, why)); return
    print("=== %s kept; check %s -> %s" % (id, prop, "not run" if not caught else "CAUGHT" if caught[0] == 1 else "MISSED %s %s" % caught), flush=True)
def recheck(ids):
    for id in ids or sorted(os.listdir(HERE + "/seeded")):
        d = HERE + "/seeded/" + id
        p = json.load(open(d + "/meta.json"))["property"]
        setup()
        r = sh("git -C %s apply %s/patch.diff" % (R, d))
        if r.returncode: print(id, "DOES NOT APPLY", r.stderr[:200]); continue
        c, o = check(p)
        print("%-24s %s %s" % (id, p, "caught" if c == 1 else "MISSED %d %s" % (c, o)), flush=True)
    setup()
if __name__ == "__main__":
    if sys.argv[1:2] == ["check"]: recheck(sys.argv[2:])
