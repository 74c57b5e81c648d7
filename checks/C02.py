"""C02: copies, assignments and appends give equal, independent values."""
from lib import gen, ngen
TECHNIQUE = "TLA+ model of value semantics over a store of cells (TLC: deep copies show the right value, shared cells, clearing before reading and growing appends do not); every explored history of copies, self-assignments, appends and edits, and seeded longer ones, replayed on nine kinds of objects, the full state of every object checked by TLC after each call"
CFG = """SPECIFICATION Spec
CONSTANTS Depth = %d Fault = "none" Emit = TRUE
INVARIANTS Shown Separate
VIEW View
ACTION_CONSTRAINT EmitAll
"""
FAULT = """SPECIFICATION Spec
CONSTANTS Depth = 3 Fault = "%s" Emit = FALSE
INVARIANTS Shown Separate
VIEW View
"""
N = "ABC"

def mesh_like(rng, k, n):
    """k: m, f or s; vertex counts are exact, live: surely live triangles, fresh: slot 0 is one of them"""
    s, nv, nt = ["%s_new %s" % (k, x) for x in N], dict.fromkeys(N, 0), dict.fromkeys(N, 0)
    for _ in range(n):
        x, y = rng.choice(N), rng.choice(N)
        r = rng.random()
        if r < .25:
            s.append("%s_assign %s %s" % (k, x, y)); nv[x], nt[x] = nv[y], nt[y]
        elif r < .40:
            s.append("%s_copy %s %s" % (k, x, y)); nv[x], nt[x] = nv[y], nt[y]
        elif r < .55 and k == "m" and nv[x] + nv[y] < 60:
            s.append("m_append %s %s" % (x, y)); nv[x], nt[x] = nv[x] + nv[y], nt[x] + nt[y]
        elif r < .75:
            s.append("%s_add_triangle_p %s %s" % (k, x, " ".join(gen.pt(gen.rpoint(rng)) for _ in range(3)))); nv[x] += 3; nt[x] += 1
        elif r < .80: s.append("%s_add_vertex %s %s" % (k, x, gen.pt(gen.rpoint(rng)))); nv[x] += 1
        elif r < .85: s.append("%s_color %s %d" % (k, x, rng.choice([-1, 0, 255, 0x102030])))
        elif r < .93 and nt[x] > 0: s.append("%s_unlink %s 0" % (k, x)); nt[x] -= 1
        elif k == "m" and nv[x] >= 3:
            q = rng.randrange(6)
            if q == 0: s.append("m_set_vertex %s %d %s" % (x, rng.randrange(nv[x]), gen.pt(gen.rpoint(rng))))
            elif q == 1: s.append("m_add_triangle %s %s" % (x, " ".join(map(str, rng.sample(range(nv[x]), 3))))); nt[x] += 1
            elif q == 2: s.append("m_transform %s %s" % (x, gen.transform(rng)))
            elif q == 3: s.append("m_clear " + x); nv[x] = nt[x] = 0
            elif q == 4 and nv[x] > 3: s.append("m_add_quad %s %s" % (x, gen.iv(rng.sample(range(nv[x]), 4)))); nt[x] += 2
            else: s.append("m_get %s -1" % x)
        elif k == "f" and r < .97:
            s += ["m_new M", "m_add_triangle_p M 0 0 0 1 0 0 0 1 0", "f_from_mesh %s M" % x]; nv[x] = nt[x] = 0
        elif k == "s" and r < .97: s += ["f_new F", "f_add_triangle_p F 0 0 0 1 0 0 0 1 0", "s_add_face %s F" % x]
    return s

def smooth(rng, n):
    s, ln = ["sm_new " + x for x in N], dict.fromkeys(N, 0)
    for _ in range(n):
        x, y = rng.choice(N), rng.choice(N)
        r = rng.random()
        if r < .2: s.append("sm_assign %s %s" % (x, y)); ln[x] = ln[y]
        elif r < .35: s.append("sm_copy %s %s" % (x, y)); ln[x] = ln[y]
        elif r < .55 and ln[x] + ln[y] < 12: s.append("sm_append %s %s" % (x, y)); ln[x] += ln[y]
        elif r < .75: s.append("sm_flat_triangle %s %s" % (x, gen.pts([gen.rpoint(rng, 1) for _ in range(3)]))); ln[x] += 1
        elif r < .85: s += ["b_points P %s" % gen.pts([gen.rpoint(rng, 2) for _ in range(3)]), "sm_add %s P" % x]; ln[x] += 1
        elif r < .95: s.append("sm_transform %s %s" % (x, gen.transform(rng)))
        else: s.append("sm_clear " + x); ln[x] = 0
    return s

def patch(rng, n):
    s = []
    for _ in range(n):
        x, y = rng.choice(N), rng.choice(N)
        r = rng.random()
        if r < .3: s.append("b_assign %s %s" % (x, y))
        elif r < .5: s.append("b_copy %s %s" % (x, y))
        elif r < .8: s.append("%s %s %s" % (rng.choice(["b_points", "b_control"]), x, gen.pts([gen.rpoint(rng, 1) for _ in range(3)])))
        elif r < .9: s.append("b_weights %s %s" % (x, gen.ds([rng.choice([1, 2, .5]) for _ in range(6)])))
        else: s.append("b_transform %s %s" % (x, gen.transform(rng)))
    return s

def nurbs(rng, k, n):
    """k: c, n or o"""
    s, ok = ["%s_new %s" % (k, x) for x in N], dict.fromkeys(N, False)
    for _ in range(n):
        x, y = rng.choice(N), rng.choice(N)
        r = rng.random()
        if r < .25: s.append("%s_assign %s %s" % (k, x, y)); ok[x] = ok[y]
        elif r < .45: s.append("%s_copy %s %s" % (k, x, y)); ok[x] = ok[y]
        elif k == "c":
            if r < .7: s += ngen.curve(rng, x)[0]; ok[x] = True
            elif r < .8: s.append("c_clear " + x); ok[x] = False
            elif ok[x]: s.append(rng.choice(["c_move %s 0 1 2 3" % x, "c_elevate " + x, "c_insert %s 0x1.99999ap-2" % x, "c_equal " + x, "c_eval %s 2 0 0.5" % x]))
        elif k == "n":
            if r < .7: s += ngen.surface(rng, x)[0]; ok[x] = True
            elif r < .8: s.append("n_clear " + x); ok[x] = False
            elif ok[x]: s.append(rng.choice(["n_move %s 0 1 2 3" % x, "n_equal " + x, "n_weight %s 0 2" % x, "n_closed_u %s 1" % x, "n_closed_v %s 1" % x, "n_transform %s %s" % (x, gen.transform(rng))]))
        else:
            if r < .75: s += ngen.surface(rng, "S")[0] + ["o_add %s S" % x]; ok[x] = True
            elif r < .8: s.append("o_clear " + x); ok[x] = False
            elif ok[x]: s.append(rng.choice(["o_move %s 0 0 7 7 7" % x, "o_transform %s %s" % (x, gen.transform(rng))]))
            if r > .9 and "S" in " ".join(s): s.append("n_move S 0 5 5 5" if any(t.startswith("o_add") for t in s) else "n_new S")
    return s

def image(rng, n):
    s, sh = ["i_default " + x for x in N], dict.fromkeys(N, (0, 0, 1))
    for _ in range(n):
        x, y = rng.choice(N), rng.choice(N)
        r = rng.random()
        if r < .25: s.append("i_assign %s %s" % (x, y)); sh[x] = sh[y]
        elif r < .45: s.append("i_copy %s %s" % (x, y)); sh[x] = sh[y]
        elif r < .6:
            sh[x] = (rng.randint(1, 4), rng.randint(1, 4), rng.choice([1, 3, 4]))
            s.append("i_load %s %d %d %d %s" % ((x,) + sh[x] + (gen.iv([rng.randrange(256) for _ in range(rng.randint(3, 40))]),)))
        elif r < .68:
            sh[x] = (rng.randint(1, 4), rng.randint(1, 4), rng.choice([1, 3, 4]))
            s.append("i_resize %s %d %d %d" % ((x,) + sh[x]))
        elif sh[x][0]:
            w, h, p = sh[x]
            s.append(rng.choice(["i_set %s %d %d %d %d" % (x, rng.randrange(w), rng.randrange(h), rng.randrange(p), rng.randrange(256)),
                                 "i_set_p %s %d %d %d %d" % (x, rng.randrange(w), rng.randrange(h), rng.randrange(p), rng.randrange(256)), "i_scale %s 0.5" % x]))
    return s

def large(rng):
    """long lists copied, appended and changed at their far end"""
    out = []
    nv, nt = rng.choice([70, 150, 300]), rng.choice([70, 140, 300])
    ld = lambda m, col: "m_load %s %d %s %d %s" % (m, col, gen.pts([gen.rpoint(rng, 3) for _ in range(nv)]), nt,
                                                   " ".join("%d %d %d %d" % tuple(rng.sample(range(nv), 3) + [int(rng.random() < .1)]) for _ in range(nt)))
    s = [ld("A", 5), rng.choice(["m_copy B A", "m_assign B A"]), "m_set_vertex A %d 1 2 3" % (nv - 1), "m_unlink A %d" % (nt - 1), "m_get B -1"]
    s.append(rng.choice(["m_append B A", "m_assign A B", "m_clear A"]))
    out.append(s + ["m_get B -1"])
    c, U, V = ngen.surface(rng, "A", du=2, dv=3, nu=rng.choice([9, 12]), nv=rng.choice([11, 8]))
    out.append(c + [rng.choice(["n_copy B A", "n_assign B A"]), "n_move A %d 1 2 3" % (U[1] * V[1] - 1), "n_equal B", "n_clear A"])
    c, d, n, k = ngen.curve(rng, "A", d=3, n=rng.choice([20, 40, 70]))
    out.append(c + [rng.choice(["c_copy B A", "c_assign B A"]), "c_move A %d 1 2 3" % (n - 1), "c_equal B", "c_insert A 0x1.99999ap-2"])
    w, h = rng.choice([(300, 1), (1, 300), (20, 17)])
    out.append(["i_load A %d %d 3 %s" % (w, h, gen.iv([rng.randrange(256) for _ in range(w * h * 3)])), rng.choice(["i_copy B A", "i_assign B A"]),
                "i_set A %d %d 2 9" % (w - 1, h - 1), "i_scale B 0.5"])
    return out

def run(ctx):
    rng, scripts = ctx.rng, []
    for f in ("share", "clear", "grow"): ctx.refuted("CopyMC", FAULT % f)
    h = gen.dedup_prefixes(ctx.model("CopyMC", CFG % (4 if ctx.quick else 5)))
    for i, c in enumerate(gen.sample(rng, h, ctx.n(1200, 15000))): scripts.append(("mc-%d" % i, c))
    for i in range(ctx.n(60, 1000)):
        for k in "mfs": scripts.append(("%s-%d" % (k, i), mesh_like(rng, k, 16)))
        scripts.append(("smooth-%d" % i, smooth(rng, 10)))
        scripts.append(("patch-%d" % i, patch(rng, 12)))
        for k in "cno": scripts.append(("%s-%d" % (k, i), nurbs(rng, k, 10)))
        scripts.append(("image-%d" % i, image(rng, 14)))
    for i in range(ctx.n(3, 30)):
        for j, s in enumerate(large(rng)): scripts.append(("large-%d-%d" % (i, j), s))
    ctx.validate(scripts)
