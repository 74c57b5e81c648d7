"""C24: a save reports success only if the whole file was stored."""
from lib import gen, fgen, ngen
TECHNIQUE = "TLA+ model of a save through a buffer onto a disk of limited size (TLC: every limit of four small files; status good if and only if complete); every limit replayed with the kernel's file size limit, full device and unwritable places, and the stored bytes judged by TLC"
CFG = """SPECIFICATION Spec
CONSTANTS Fault = "none" Emit = TRUE
INVARIANTS Prefix Honest Distinguished EmitState
"""
FAULT = """SPECIFICATION Spec
CONSTANTS Fault = "%s" Emit = FALSE
INVARIANT Honest
"""
OFF = {"f_cap": "f_cap -1", "f_glitch": "f_glitch -1 0 0"}
MESH = "m_load A -1 4 0 0 0 1 0 0 0 2 0 0 0 -3 2 0 2 1 0 0 1 3 0"
def img(p): return "i_load A 3 2 %d %s" % (p, gen.iv([(i * 67 + 13) % 256 for i in range(1, 6 * p + 1)]))

def run(ctx):
    rng, scripts = ctx.rng, []
    faults = ctx.model("FaultMC", CFG, workers=4)
    for f in ("early", "forget"): ctx.refuted("FaultMC", FAULT % f)
    steps = {}
    for kind, c in faults:
        k = kind[0]
        steps.setdefault(kind, []).append([c, "f_save %s %s1 A" % (k, k), OFF[c.split()[0]], "f_load %s %s1 B" % (k, k)])
    steps["O"] = [["f_cap %d" % c, "f_save O O1 A", "f_cap -1", "f_load O O1 B"] for c in range(0, 70)]
    n = 0
    for kind in steps:
        for i in range(0, len(steps[kind]), 8):
            scripts.append(("limit-%s-%d" % (kind, i), [MESH if kind[0] in "SO" else img(int(kind[1:]))] + sum(steps[kind][i:i + 8], []) + ["f_save %s %s1 A" % (kind[0], kind[0])]))
    for i in range(ctx.n(40, 400)):            # places that cannot be written, old contents, several saves
        k = rng.choice("SOB")
        s = [fgen.mesh(rng, "A", nv=6, nt=4), fgen.mesh(rng, "B")] if k != "B" else [fgen.image(rng, "A"), fgen.image(rng, "B")]
        for _ in range(rng.randint(2, 5)):
            r = rng.randrange(6)
            p = k + rng.choice("12")
            if r < 2: s.append("f_save %s %s %s" % (k, rng.choice(["@full", "@none", "@dir"]), rng.choice("AB")))
            elif r == 2: s += ["f_save %s %s %s" % (k, p, rng.choice("AB")), "f_load %s %s C" % (k, p)]
            elif r == 3: s += ["f_cap %d" % rng.choice([0, 1, 20, 53, 54, 60, 83, 84, 90, 134, 200, 1000, 1078, 1200]), "f_save %s %s %s" % (k, p, rng.choice("AB")), "f_cap -1"]
            elif r == 4: s += ["f_mkdir %s3" % k, "f_save %s @dir A" % k]
            else: s += ["f_save %s %s A" % (k, p), "f_cut %s -1" % p, "f_save %s %s A" % (k, p)]
        scripts.append(("places-%d" % i, s))
    big = [("S", "m_factory A sphere_uv 1 1 12"), ("O", "m_factory A sphere_uv 1 1 12"), ("B", "i_load A 61 50 3 2 9 200")]
    for k, make in big:                        # larger than any buffer
        for c in [0, 1, 4095, 4096, 8191, 8192, 8193, 9000, -1] if ctx.quick else [0, 1, 511, 512, 1024, 4095, 4096, 4097, 8190, 8191, 8192, 8193, 9000, 9203, 9204, 12000, 16384, 30000, -1]:
            scripts.append(("big-%s-%d" % (k, c), [make, "f_cap %d" % c, "f_save %s %s1 A" % (k, k), "f_cap -1", "f_load %s %s1 B" % (k, k)] + (["f_save %s @full A" % k] if c == 0 else [])))
    for i, (k, make) in enumerate(big * ctx.n(4, 30)):                        # faults that pass, between other transfers
        g = "f_glitch %d %d %d" % (rng.choice([0, 0, 1, 1, 2, 3, 5, 9]), rng.choice([1, 1, 1, 2, 3]), rng.randrange(2))
        s = [make, g, "f_save %s %s1 A" % (k, k), "f_glitch -1 0 0", "f_load %s %s1 B" % (k, k)]
        if k == "O": s = [make, "ow_open W O1"] + rng.choice([[g, "ow_mesh W A"], ["ow_mesh W A", g], ["ow_mesh W A", g, "ow_mesh W A"]]) + ["ow_poly W " + fgen.polyline(rng), rng.choice(["ow_close W", "ow_close W", "ow_open W O2"]), "f_glitch -1 0 0", "ow_open W O1", "ow_mesh W A", "ow_close W"] + s[1:]
        scripts.append(("passing-%s-%d" % (k, i), s))
    for i in range(ctx.n(120, 1500)):          # writers
        step = rng.random() < .4
        s = ngen.surface(rng, "A")[0] if step else [fgen.mesh(rng, "A", nv=5, nt=3)]
        w = "sw" if step else "ow"
        f = "P" if step else "O"
        add = ["sw_surf W A"] if step else ["ow_mesh W A", "ow_poly W " + fgen.polyline(rng)]
        lim = lambda: rng.choice([0, 1, 5, 30, 100, 300, 500, 700, 900, 1200, 3000])
        cap, done = False, False
        s.append("%s_open W %s" % (w, rng.choice([f + "1", f + "1", f + "2", "@full", "@none", "@dir"])))
        for _ in range(rng.randint(1, 6)):
            r = rng.randrange(8)
            if r < 4: s.append(rng.choice(add))
            elif r == 4 and not cap: s.append("f_cap %d" % lim()); cap = True
            elif r == 5 and cap: s.append("f_cap -1"); cap = False
            elif r == 6: s.append("%s_open W %s" % (w, rng.choice([f + "1", f + "2", "@full", "@none"])))
            elif r == 7: s.append("%s_close W" % w)
        s.append("%s_%s W" % (w, rng.choice(["close", "del"])))
        if cap: s.append("f_cap -1")
        s += ["%s_open W %s3" % (w, f), add[0], "%s_close W" % w]
        scripts.append(("writer-%d" % i, s))
    ctx.validate(scripts)
