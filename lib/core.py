"""Framework: build the harness from /repo, replay scripts, run TLC, validate traces."""
import hashlib, json, os, random, re, shutil, subprocess, sys, tempfile, time
from lib import witness
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
TLA = "/opt/veriftools/tla"
CP = TLA + "/tla2tools.jar:" + TLA + "/CommunityModules-deps.jar"
BUILD = os.path.join(HERE, ".build")
NSHARD = int(os.environ.get("VERIF_SHARDS", "8"))

class ToolError(Exception):
    pass

def tree_hash(paths):
    h = hashlib.sha256()
    for root in paths:
        for d, dirs, files in os.walk(root):
            dirs.sort()
            for f in sorted(files):
                p = os.path.join(d, f)
                h.update(p.encode())
                with open(p, "rb") as fh: h.update(fh.read())
    return h.hexdigest()[:16]

def build_java():
    out = os.path.join(BUILD, "java-" + tree_hash([os.path.join(HERE, "java")]))
    if not os.path.exists(os.path.join(out, "ok")):
        tmp = tempfile.mkdtemp(dir=mk(BUILD))
        src = [os.path.join(HERE, "java", f) for f in os.listdir(os.path.join(HERE, "java")) if f.endswith(".java")]
        r = subprocess.run(["javac", "-cp", CP, "-d", tmp] + src, capture_output=True, text=True)
        if r.returncode: raise ToolError("javac failed\n" + r.stderr)
        open(os.path.join(tmp, "ok"), "w").close()
        shutil.rmtree(out, ignore_errors=True)
        os.rename(tmp, out)
    return out

def mk(d):
    os.makedirs(d, exist_ok=True)
    return d

def build_harness():
    """The key is the content of the sources, so a changed tree is always rebuilt."""
    key = tree_hash([os.path.join(REPO, "src"), os.path.join(HERE, "harness")])
    out = os.path.join(BUILD, "harness-" + key)
    exe = os.path.join(out, "harness")
    if not os.path.exists(os.path.join(out, "ok")):
        for d in os.listdir(mk(BUILD)):       # keep only the newest builds
            p = os.path.join(BUILD, d)
            if d.startswith("harness-") and time.time() - os.path.getmtime(p) > 600: shutil.rmtree(p, ignore_errors=True)
        tmp = tempfile.mkdtemp(dir=BUILD, prefix="tmp-")
        r = subprocess.run(["cmake", "-G", "Ninja", "-DCMAKE_CXX_COMPILER=g++", "-DREPO=" + REPO, os.path.join(HERE, "harness")],
                           cwd=tmp, capture_output=True, text=True)
        if r.returncode == 0:
            r = subprocess.run(["ninja"], cwd=tmp, capture_output=True, text=True)
        if r.returncode:
            shutil.rmtree(tmp, ignore_errors=True)
            raise ToolError("harness build failed\n" + r.stdout[-4000:] + r.stderr[-2000:])
        open(os.path.join(tmp, "ok"), "w").close()
        shutil.rmtree(out, ignore_errors=True)
        os.rename(tmp, out)
    return exe

class Tlc:
    """result of one TLC run"""
    def __init__(s, out, code):
        s.out, s.code = out, code
        m = re.findall(r"^(\d+) states generated, (\d+) distinct states found", out, re.M)
        s.generated, s.distinct = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
        m = re.findall(r"@@REACHED (\d+)", out)
        s.reached = int(m[-1]) if m else None
        s.fails = re.findall(r'^<<"FAIL".*>>$', out, re.M)

class Ctx:
    def __init__(s, pid, tier, seed):
        s.pid, s.tier, s.seed = pid, tier, seed
        s.quick = tier != "thorough"
        s.rng = random.Random("%s/%d" % (pid, seed))
        s.t0 = time.time()
        s.work = tempfile.mkdtemp(prefix="verif-%s-" % pid)
        s.states = s.transitions = s.traces = s.events = 0
        s.model_runs, s.samples, s.assumptions, s.violations = [], [], [], []
        s.opcount = {}
        s.java = build_java()
        s.exe = build_harness()
        s.known = load_known(pid)
        s.extra = {}

    def cleanup(s):
        shutil.rmtree(s.work, ignore_errors=True)

    def n(s, quick, thorough):
        return quick if s.quick else thorough

    # ------------------------------------------------------------------ TLC
    def tlc(s, module, cfg, env=None, workers=1, args=(), timeout=800, heap="2g", name=None):
        d = tempfile.mkdtemp(dir=s.work)
        for f in os.listdir(os.path.join(HERE, "tla")):
            if f.endswith(".tla"): os.symlink(os.path.join(HERE, "tla", f), os.path.join(d, f))
        with open(os.path.join(d, "run.cfg"), "w") as f: f.write(cfg)
        cmd = ["java", "-Xmx" + heap, "-Xss64m", "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC",
               "-Djava.io.tmpdir=" + d, "-Dtlc2.tool.queue.IStateQueue=MemStateQueue", "-cp", CP + ":" + s.java, "tlc2.TLC", "-noGenerateSpecTE", "-metadir", os.path.join(d, "meta"),
               "-workers", str(workers), "-deadlock", "-config", "run.cfg"] + list(args) + [module + ".tla"]
        e = dict(os.environ)
        e.update(env or {})
        try:
            r = subprocess.run(cmd, cwd=d, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout, errors="replace")
            res = Tlc(r.stdout, r.returncode)
        except subprocess.TimeoutExpired as x:
            raise ToolError("TLC timed out on %s" % module)
        finally:
            shutil.rmtree(d, ignore_errors=True)
        return res

    def model(s, module, cfg, workers=4, args=(), timeout=800, env=None, minstates=2):
        """Design check: explore the specification itself; returns the scripts it printed."""
        t = time.time()
        r = s.tlc(module, cfg, workers=workers, args=args, timeout=timeout, heap="4g", env=env)
        if r.code != 0:
            raise ToolError("design check of %s failed (exit %d)\n%s" % (module, r.code, "\n".join(l for l in r.out.splitlines() if not l.startswith('"@@'))[-4000:]))
        if r.distinct < minstates and "-simulate" not in args:
            raise ToolError("design check of %s explored nothing\n%s" % (module, r.out[-3000:]))
        s.states += r.distinct
        s.transitions += r.generated
        s.model_runs.append({"module": module, "distinct_states": r.distinct, "states_generated": r.generated,
                             "mode": "simulation" if "-simulate" in args else "exhaustive", "wall_s": round(time.time() - t, 1)})
        out = []
        for l in r.out.splitlines():
            if l.startswith('"@@'):
                out.append([c for c in json.loads(l)[2:].split(";") if c])
        return out

    def refuted(s, module, cfg, timeout=300):
        """A design fault put into the specification must break one of its invariants."""
        r = s.tlc(module, cfg, workers=2, timeout=timeout)
        if r.code == 0 or "is violated" not in r.out:
            raise ToolError("%s did not refute the fault (exit %d)\n%s" % (module, r.code, r.out[-3000:]))
        s.model_runs.append({"module": module, "mode": "refutation of a planted design fault", "config": cfg.split("CONSTANTS")[-1].split("\n")[0].strip()})

    # ------------------------------------------------------- replay + validate
    def harness(s, scripts, d, limit):
        with open(os.path.join(d, "scripts"), "w") as f:
            for i, (name, lines) in enumerate(scripts):
                f.write("script %s\n" % name)
                for l in lines: f.write(l + "\n")
        mk(os.path.join(d, "scratch"))
        e = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:exitcode=99:max_allocation_size_mb=256:allocator_may_return_null=0:handle_abort=0",
                 LC_ALL="C")
        r = subprocess.run([s.exe, os.path.join(d, "scripts"), os.path.join(d, "ev"), os.path.join(d, "scratch"), str(limit)],
                           env=e, capture_output=True, text=True, errors="replace", cwd=os.path.join(d, "scratch"))
        if r.returncode != 0:
            raise ToolError("harness exit %d\n%s" % (r.returncode, r.stderr[-3000:]))
        return os.path.join(d, "ev"), r.stderr

    def shard(s, module, cfg, scripts, limit, env):
        d = tempfile.mkdtemp(dir=s.work)
        ev, err = s.harness(scripts, d, limit)
        witness.annotate(ev)
        with open(ev) as f: events = [l.rstrip("\n") for l in f]
        e = {"TRACE": ev}
        e.update(env or {})
        r = s.tlc(module, cfg, env=e, timeout=840)
        shutil.rmtree(os.path.join(d, "scratch"), ignore_errors=True)
        n = len(events)
        bad = None
        if r.reached is not None and r.code == 0 and r.reached == n:
            pass
        elif r.reached is not None and r.reached < n:
            bad = r.reached
        elif r.reached is None or r.code != 0:
            # evaluation error or the like: TLC prints the position it had reached
            m = re.findall(r"^(?:/\\ )?l = (\d+)", r.out, re.M)
            if not m: raise ToolError("TLC failed (exit %d)\n%s" % (r.code, r.out[-6000:]))
            bad = int(m[-1]) - 1
        ids, cur = [], None
        for l in events:
            if l.startswith('{"op":"Reset"'): cur = json.loads(l)["id"]
            ids.append(cur)
        return dict(scripts=scripts, events=events, ids=ids, bad=bad, r=r, stderr=err, dir=d)

    def validate(s, scripts, module="SystemTrace", cfg=None, limit=20, shards=None, env=None, known=None):
        """Replay scripts [(id, [lines])] on the code, check the events against the trace
        specification. known: ids of scripts whose rejection is a listed known finding."""
        cfg = cfg or "SPECIFICATION TraceSpec\nPOSTCONDITION Accepted\nCHECK_DEADLOCK FALSE\n"
        k = min(shards or NSHARD, max(1, len(scripts)))
        seen = set()
        for i, _ in scripts:
            if i in seen: raise ToolError("duplicate script id " + i)
            seen.add(i)
        parts = [scripts[i::k] for i in range(k)]
        with ThreadPoolExecutor(k) as ex:
            res = list(ex.map(lambda p: s.shard(module, cfg, p, limit, env), parts))
        for x in res:
            s.states += x["r"].distinct
            s.transitions += x["r"].generated
            s.events += len(x["events"])
            upto = len(x["events"]) if x["bad"] is None else x["bad"]
            s.traces += len(set(x["ids"][:upto])) - (1 if x["bad"] is None else 0)
            for l in x["events"][:upto]:
                m = re.match(r'\{"op":"([^"]*)"', l)
                s.opcount[m.group(1)] = s.opcount.get(m.group(1), 0) + 1
            if x["bad"] is not None: s.rejected(module, cfg, x, limit, env)
            shutil.rmtree(x["dir"], ignore_errors=True)
        if scripts and len(s.samples) < 6:
            for i in (0, len(scripts) // 2):
                s.samples.append({"script": scripts[i][0], "calls": [c[:160] for c in scripts[i][1][:10]]})

    def rejected(s, module, cfg, x, limit, env):
        pos = x["bad"]
        sid = x["ids"][pos]
        script = [t for t in x["scripts"] if t[0] == sid]
        if not script: raise ToolError("rejected outside a script at %d\n%s" % (pos, x["r"].out[-3000:]))
        again = None
        for _ in range(2):                       # a rejection counts only if it repeats
            y = s.shard(module, cfg, script, limit, env)
            if y["bad"] is not None: again = y; break
        if again is None:
            raise ToolError("a rejection of script %s did not repeat\nevent %d of %d: %s\n%s\n%s" % (sid, x["bad"], len(x["events"]), x["events"][min(x["bad"], len(x["events"]) - 1)][:300], x["r"].fails[-3:], x["r"].out[-1500:]))
        pos = again["bad"]
        mk(os.path.join(HERE, "replay"))
        path = os.path.join(HERE, "replay", "%s-%s.json" % (s.pid, re.sub(r"[^A-Za-z0-9_.-]", "_", sid)[:60]))
        with open(path, "w") as f:
            json.dump({"property": s.pid, "module": module, "cfg": cfg, "script_id": sid, "script": script[0][1],
                       "env": env or {}, "limit": limit, "rejected_event": pos,
                       "event": again["events"][pos][:20000] if pos < len(again["events"]) else None,
                       "previous": again["events"][max(0, pos - 1)][:20000],
                       "tlc_hints": again["r"].fails[-10:], "tlc_tail": again["r"].out[-2500:],
                       "stderr": again["stderr"][-3000:]}, f, indent=1)
        s.violations.append((sid, path, again["events"][pos][:400] if pos < len(again["events"]) else "", again["r"].fails[-3:]))

    # ---------------------------------------------------------------- result
    def finish(s, level="model_checking"):
        cov = {"states": s.states, "transitions": s.transitions, "traces_validated_against_impl": s.traces,
               "events_validated": s.events, "events_by_operation": s.opcount, "model_runs": s.model_runs, "samples": s.samples[:6]}
        cov.update(s.extra)
        mk(os.path.join(HERE, "evidence"))
        with open(os.path.join(HERE, "evidence", s.pid + ".json"), "w") as f:
            json.dump({"property": s.pid, "tier": s.tier, "seed": s.seed, "level": level, "coverage": cov,
                       "assumptions": s.assumptions, "wall_s": round(time.time() - s.t0, 1), "violations": len(s.violations)}, f, indent=1)
        if s.violations:
            for sid, path, ev, hints in s.violations:
                print("rejected: script %s at %s" % (sid, ev))
                for h in hints: print("   ", h)
            print("VIOLATION property=%s replay=%s" % (s.pid, s.violations[0][1]))
            return 1
        print("OK property=%s: %d traces, %d events, %d states, %.1fs" % (s.pid, s.traces, s.events, s.states, time.time() - s.t0))
        return 0

def load_known(pid):
    p = os.path.join(HERE, "known_findings.txt")
    out = []
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) case=(\S+) (.*)", l)
            if m and m.group(1) == pid: out.append((m.group(2), m.group(3).strip()))
    return out

def replay(path):
    d = json.load(open(path))
    ctx = Ctx(d["property"], "quick", 1)
    try:
        x = ctx.shard(d["module"], d["cfg"], [(d["script_id"], d["script"])], d["limit"], d["env"])
        print("\n".join(e[:300] for e in x["events"]))
        if x["bad"] is None:
            print("accepted")
            return 0
        print("rejected at event %d" % x["bad"])
        print("\n".join(x["r"].fails))
        print(x["r"].out[-1500:])
        return 1
    finally:
        ctx.cleanup()
