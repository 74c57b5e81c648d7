#!/usr/bin/env python3
"""Mutation study (not a check): random small changes of the sources that build and pass the repository's
tests, each judged by the checks of the properties anchored in the changed file.

mutate.py OUT.jsonl SEED COUNT [file regex]     works in /tmp/mut on copies of /repo and /verif"""
import json, os, random, re, shutil, subprocess, sys, time
W = os.environ.get("MUT", "/tmp/mut"); R = W + "/repo"; V = W + "/verif"
def sh(c, t=900, **k):
    try: return subprocess.run(c, shell=True, capture_output=True, text=True, errors="replace", timeout=t, **k)
    except subprocess.TimeoutExpired: return subprocess.CompletedProcess(c, 124, "", "timeout")
MAP = {"Mesh.cpp": "C01 C03 C02 C04", "MeshKernelTIN.cpp": "C01", "MeshKernelLinkedTriangles.cpp": "C01 C03", "Face.cpp": "C02", "Solid.cpp": "C02 C04", "MeshUtil.cpp": "C05 C06 C10", "MeshTessellate.cpp": "C07",
       "MeshFactory.cpp": "C08", "MeshMeasurements.cpp": "C09 C04", "MeshBoolean.cpp": "C03 C04", "Geometry.cpp": "C11 C09 C12", "Geometry.h": "C11 C12", "Transform.cpp": "C12", "Transform.h": "C12", "NurbsCurve.cpp": "C13 C14 C18 C12", "NurbsCurve.h": "C13",
       "NurbsSurface.cpp": "C15 C19 C12", "NurbsSurface.h": "C15", "NurbsExtrude.cpp": "C16", "NurbsRuled.cpp": "C16", "NurbsRevolve.cpp": "C16", "NurbsFactory.cpp": "C17", "NurbsUtil.cpp": "C18 C10 C04", "NurbsSolid.cpp": "C02 C12",
       "OBJFile.cpp": "C20 C23 C24", "STLFile.cpp": "C20 C23 C24", "StepFile.cpp": "C21 C24", "ImageIoBmp.cpp": "C22 C23 C24", "Image.h": "C28 C22", "ImageUtil.cpp": "C28", "ImageGenerator.cpp": "C28",
       "Renderer.cpp": "C26 C25", "RendererCamera.cpp": "C26", "RendererLight.cpp": "C26", "QuadBezierTriangle.cpp": "C27", "BezierUtil.cpp": "C27", "CubicBezierTriangles.cpp": "C27", "SmoothMesh.cpp": "C27 C02", "SmoothMeshFactory.cpp": "C27"}
def setup():
    if not os.path.exists(R):
        os.makedirs(W + "/vp", exist_ok=True)
        sh("cp -a /repo %s && rm -rf %s/_build" % (R, R))
        for f in os.listdir("/opt/vp"):
            t = open("/opt/vp/" + f, encoding="utf8", errors="replace").read().replace("/repo", R).replace("/opt/vp", W + "/vp")
            open(W + "/vp/" + f, "w").write(t)
    sh("git -C %s checkout -q -- . && git -C %s fetch -q /repo HEAD && git -C %s reset -q --hard FETCH_HEAD" % (R, R, R))
    shutil.rmtree(V, ignore_errors=True)
    sh("git clone -q /verif %s" % V)
REL = [("<=", "<"), (">=", ">"), (" < ", " <= "), (" > ", " >= "), ("==", "!="), ("&&", "||"), ("||", "&&"), (" + ", " - "), (" - ", " + "), (" * ", " / "), ("continue", "break"),
       ("_u", "_v"), ("_v", "_u"), (".x()", ".y()"), (".y()", ".z()"), (".z()", ".x()"), ("_x", "_y"), ("_y", "_z"), ("p1", "p2"), ("p2", "p3"), ("iV1", "iV2"), ("iV2", "iV3"), ("true", "false"), ("false", "true"), ("U", "V"), ("V", "U"), ("- 1", ""), ("+ 1", ""), ("-1", ""), ("+1", "")]
def candidates(f):
    src = open(R + "/src/" + f, "rb").read().decode("latin1").split("\n")
    out = []; dead = False
    for i, l in enumerate(src):
        if l.strip().startswith(("/*", "/ *")): dead = True
        if dead:
            if "*/" in l: dead = False
            continue
        c = l.split("//")[0].rstrip()
        if not c.strip() or c.lstrip().startswith(("#", "assert", "using", "/*", "*")): continue
        if re.search(r"#ifdef|assert\(", c): continue
        for a, b in REL:
            for m in re.finditer(re.escape(a), c): out.append((i, c[:m.start()] + b + c[m.end():]))
        for m in re.finditer(r"(?<![\w.])(\d+)(?![\w.])", c):
            v = int(m.group(1)); out.append((i, c[:m.start()] + str(v + 1) + c[m.end():]))
            if v: out.append((i, c[:m.start()] + str(v - 1) + c[m.end():]))
        for m in re.finditer(r"(?<![\w.])(\d+\.\d*(?:e-?\d+)?)", c): out.append((i, c[:m.start()] + (m.group(1) + "*1.5" if float(m.group(1)) else "1e-3") + c[m.end():]))
        if re.match(r"\s*if \((.*)\)\s*$", c): out.append((i, re.sub(r"if \((.*)\)\s*$", r"if (!(\1))", c))); out.append((i, re.sub(r"if \((.*)\)\s*$", r"if (false && (\1))", c)))
        if c.strip().endswith(";") and not re.match(r"\s*(return|for|int|double|auto|const|bool|vector|string|Point3|else|break|continue|unsigned|Mesh |Triangle3 |float|char)\b", c) and c.startswith(("\t", " ")): out.append((i, re.match(r"\s*", c).group(0) + ";"))
    return src, out
def main():
    outp, seed, count = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
    pat = re.compile(sys.argv[4] if len(sys.argv) > 4 else ".")
    rng = random.Random(seed)
    setup()
    base = json.load(open("/opt/vp/BASELINE.json"))
    stable = next(base[k] for k in ("stable", "passed", "pass", "tests") if isinstance(base.get(k), list))
    pool = []
    for f in MAP:
        if not pat.search(f): continue
        src, c = candidates(f)
        lines = {}
        for i, t in c: lines.setdefault(i, []).append(t)
        for i in lines: pool.append((f, i, rng.choice(lines[i])))
    rng.shuffle(pool)
    n = 0
    for f, i, t in pool:
        if n >= count: break
        p = R + "/src/" + f
        sh("git -C %s checkout -q -- ." % R)
        src = open(p, "rb").read().decode("latin1").split("\n")
        old = src[i]
        src[i] = t + ("\r" if old.endswith("\r") else "")
        if src[i].strip() == old.split("//")[0].strip(): continue
        open(p, "wb").write("\n".join(src).encode("latin1"))
        rec = {"file": f, "line": i + 1, "old": old.strip(), "new": t.strip()}
        if sh("bash %s/vp/build.sh" % W, 200).returncode: continue
        o = W + "/out.json"
        if os.path.exists(o): os.remove(o)
        sh("timeout 60 bash %s/vp/test.sh %s" % (W, o))
        try: got = set(json.load(open(o))["passed"])
        except Exception: continue
        if set(stable) - got: continue
        n += 1
        rec["result"] = "SURVIVED"
        for pid in MAP[f].split():
            r = sh("python3 %s/tools/fastcheck.py %s %s %s/cache %s" % (V, V, R, W, pid), 900, cwd=V, env=dict(os.environ, VERIF_SEED="1"))
            if r.returncode == 1: rec["result"] = "caught " + pid; break
            if r.returncode != 0: rec["result"] = "error %s %d %s" % (pid, r.returncode, (r.stdout + r.stderr)[-300:]); break
        open(outp, "a").write(json.dumps(rec) + "\n")
    sh("git -C %s checkout -q -- ." % R)
main()
