"""C20: mesh files reproduce the mesh."""
from lib import gen, fgen, ngen
TECHNIQUE = "TLA+ specification of STL bytes and OBJ lines, of saving, loading and writers (TLC: every short history over two files and two writers, encoding and decoding are inverse); explored and seeded histories replayed on the code, the bytes and lines of every file decoded and judged by TLC"
CFG = """SPECIFICATION Spec
CONSTANTS Depth = %d Emit = TRUE
INVARIANTS Codec Stored
ACTION_CONSTRAINT EmitAll
"""
def writer(rng, w, files, n):
    s = []
    for _ in range(n):
        k = rng.randrange(10)
        if k < 5: s.append("ow_mesh %s %s" % (w, rng.choice("ABC")))
        elif k < 8: s.append("ow_poly %s %s" % (w, fgen.polyline(rng)))
        elif k == 8: s.append(rng.choice(["ow_close %s" % w, "ow_open %s %s" % (w, rng.choice(files))]))
        else: s.append("m_color %s %d" % (rng.choice("ABC"), rng.choice([-1, 0, 0xff8001, rng.randrange(1 << 24)])))
    return s

def run(ctx):
    rng, scripts = ctx.rng, []
    h = gen.dedup_prefixes(ctx.model("FilesMC", CFG % ctx.n(3, 4), workers=8))
    for i, c in enumerate(gen.sample(rng, h, ctx.n(1200, 12000))): scripts.append(("mc-%d" % i, c))
    for i in range(ctx.n(250, 4000)):          # round trips, targets used before
        s = [fgen.mesh(rng, "A") if rng.random() < .85 else fgen.factory(rng, "A")]
        if rng.random() < .4: s.append(fgen.mesh(rng, "B"))
        for _ in range(rng.randint(1, 3)):
            f, k = rng.choice([("S1", "S"), ("O1", "O"), ("O2", "O"), ("S2", "S")])
            src, dst = rng.choice(["AB", "AC", "BA", "AA"])
            if rng.random() < .3 and "f_save %s %s A" % (k, f) in s: pass
            else: s.append("f_save %s %s %s" % (k, f, src))
            s.append("f_load %s %s %s" % (k, f, dst))
            if rng.random() < .3: s.append("m_add_vertex %s 1 2 3" % src)
        scripts.append(("round-%d" % i, s))
    for i in range(ctx.n(200, 3000)):          # writers
        s = [fgen.mesh(rng, "A"), fgen.mesh(rng, "B", nv=4), fgen.factory(rng, "C") if rng.random() < .3 else fgen.mesh(rng, "C")]
        s.append("ow_open W O1")
        s += writer(rng, "W", ["O1", "O2"], rng.randint(1, 7))
        if rng.random() < .4: s += ["ow_open V O3"] + [x for p in zip(writer(rng, "V", ["O4"], 3), writer(rng, "W", ["O1", "O2"], 3)) for x in p] + [rng.choice(["ow_del V", "ow_close V"])]
        s.append(rng.choice(["ow_close W", "ow_del W"]))
        s += ["f_load O O1 D", "f_load O O2 D"]
        scripts.append(("writer-%d" % i, s))
    for i, k in enumerate(["sphere_uv", "torus", "cylinder"]):            # larger objects in one file
        scripts.append(("shapes-%d" % i, ["m_factory A %s %s 5" % (k, gen.ds([2, 1][:1 if k == "sphere_uv" else 2])), "m_tessellate B A 2", "ow_open W O1", "ow_mesh W A", "ow_mesh W B",
                        "ow_poly W " + fgen.polyline(rng), "ow_mesh W A", "ow_close W", "f_load O O1 C", "f_save S S1 C", "f_load S S1 A"]))
    for i in range(ctx.n(6, 24)):              # thousands of triangles, removed ones among them
        f = rng.choice("SO") if i > 1 else "SO"[i]
        n = rng.choice([8, 9, 12])
        nt = 2 * (2 + 4 * n) * (1 + 2 * n)
        s = ["m_factory A sphere_uv 1 2 %d" % n]
        s += ["m_unlink A %d" % t for t in sorted({nt - 1, *rng.sample(range(nt), rng.choice([1, 5, 20])), *(rng.randrange(1000, nt) for _ in range(3))})]
        s += ["f_save %s %s1 A" % (f, f), "f_load %s %s1 B" % (f, f)]
        scripts.append(("many-%d" % i, s))
    for i in range(ctx.n(60, 900)):            # numbers of every magnitude
        s, v = [], [[rng.choice([-1, 1]) * rng.uniform(1, 10) * 10.0 ** rng.choice([rng.randint(-44, 37), rng.randint(-44, -28), rng.randint(28, 37)]) for _ in range(3)] for _ in range(4)]
        s.append("m_load A -1 %s 2 0 1 2 0 0 2 3 0" % gen.pts(v))
        for f in "SO": s += ["f_save %s %s1 A" % (f, f), "f_load %s %s1 B" % (f, f)]
        scripts.append(("magnitude-%d" % i, s))
    for i in range(ctx.n(150, 2500)):          # files written by others
        s = []
        n = rng.choice([0, 1, 2, 5])
        finite = True
        if rng.random() < .4:
            finite = rng.random() < .8
            s += ["f_put S1 " + fgen.b(fgen.stl(rng, n, finite=finite) + bytes(rng.choice([0, 0, 3, 60]))), "f_load S S1 A"]
        else:
            ls, nv = ["# made elsewhere"] * rng.randrange(2), 0
            for _ in range(rng.randint(0, 12)):
                k = rng.randrange(9)
                if k < 5 or nv == 0:
                    ls.append("v " + " ".join(rng.choice(["%g", "%.9f", "%e", "%d"]) % c for c in fgen.point(rng, rng.choice([0, 1, 4]))) + rng.choice(["", "", " 1", " 0.1 0.2 0.3", " "]))
                    nv += 1
                elif k < 8: ls.append("f %d %d %d" % tuple(rng.randint(1, nv) for _ in range(3)) + rng.choice(["", " "]))
                else: ls.append(rng.choice(["", "vn 0 0 1", "vt 0.5 0.5", "g part", "s off", "usemtl red", "l 1 1", "o thing", "# f 1 2 3", "mtllib a.mtl"]))
            s += ["f_hex O1 " + fgen.hexs(rng.choice(["\n", "\n", "\r\n"]).join(ls) + rng.choice(["\n", ""])), "f_load O O1 A"]
        if rng.random() < .3: s.insert(0, fgen.mesh(rng, "A"))
        if finite: s.append("f_save S S2 A")
        scripts.append(("others-%d" % i, s))
    ctx.validate(scripts)
