"""C03: local refinement keeps the surface, its orientation and closedness."""
from lib import gen
from checks.C08 import params, POLY
TECHNIQUE = "TLA+ model of mesh edits (boundary, closedness and area-vector preservation of refinements checked by TLC); every explored history and seeded refinement/cutting histories replayed and checked by TLC against the model in exact arithmetic"
CFG = """SPECIFICATION Spec
CONSTANTS Start = "%s" MaxV = %d MaxT = %d Depth = %d Full = FALSE Emit = TRUE Sim = FALSE
VIEW View
INVARIANT Inv
PROPERTIES Stable Refine KeepClosed Reverse
ACTION_CONSTRAINT EmitAll
"""
BASES = {  # closed meshes: vertices, triangles
 "tetra": ([[0, 0, 0], [4, 0, 0], [0, 4, 0], [0, 0, 4]], [(0, 2, 1), (0, 1, 3), (1, 2, 3), (3, 2, 0)]),
 "octa": ([[2, 0, 0], [0, 2, 0], [0, 0, 2], [-2, 0, 0], [0, -2, 0], [0, 0, -2]],
          [(0, 1, 2), (1, 0, 5), (2, 1, 3), (0, 2, 4), (4, 3, 5), (3, 4, 2), (5, 3, 1), (4, 5, 0)]),
}

class Sim:
    """just enough bookkeeping to generate valid arguments"""
    def __init__(s, v, t): s.v, s.t = [list(p) for p in v], [list(x) for x in t]
    def live(s): return [i for i, x in enumerate(s.t) if x]
    def edges(s):
        d = {}
        for i in s.live():
            x = s.t[i]
            for k in range(3): d.setdefault((x[k], x[(k + 1) % 3]), []).append(i)
        return [(a, b, i, j) for (a, b), u in d.items() for i in u for j in d.get((b, a), []) if i != j]

def refine(rng, name, n, flip=False):
    v, t = BASES[name]
    t = [list(x[r:] + x[:r]) for x in t for r in [rng.randrange(3)]]
    rng.shuffle(t)
    w = Sim(v, t)
    out = ["m_load A -1 %s %d %s" % (gen.pts(v), len(t), " ".join("%d %d %d 0" % tuple(x) for x in t))]
    for _ in range(n):
        r = rng.random()
        if r < .5 and w.edges():
            a, b, i, j = rng.choice(w.edges())
            k = rng.choice([0.5, 0.25, 0.75, 0.5])
            p = [w.v[a][c] + (w.v[b][c] - w.v[a][c]) * k for c in range(3)] if rng.random() < .7 else gen.rpoint(rng, 3)
            out.append("m_add_vertex A " + gen.pt(p)); w.v.append(p)
            q = len(w.v) - 1
            out.append("m_split_edge A %d %d %d %d %d" % (i, j, a, b, q))
            p1 = [c for c in w.t[i] if c not in (a, b)]; p2 = [c for c in w.t[j] if c not in (a, b)]
            if len(p1) != 1 or len(p2) != 1: return out[:-1] + ["m_measure A"]
            w.t[i] = w.t[j] = None
            w.t += [[a, q, p1[0]], [q, b, p1[0]], [b, q, p2[0]], [q, a, p2[0]]]
            if rng.random() < .3: out.append("m_measure A")
            continue
        i = rng.choice(w.live())
        x = w.t[i]
        nm = "%d=%d.%d.%d" % (i, *x)      # the code numbers the slots: triangles are named by their corners too
        if flip and r > .85:
            out += ["m_flip A " + nm]
            w.t[i] = None; w.t.append([x[0], x[2], x[1]])
            continue
        k = [rng.choice([1, 2, 4]) for _ in range(3)]
        p = [sum(k[c] * w.v[x[c]][d] for c in range(3)) / sum(k) for d in range(3)]
        if rng.random() < .5: out.append("m_split_p A %s %s" % (nm, gen.pt(p)))
        else: out += ["m_add_vertex A " + gen.pt(p), "m_split_v A %s %d" % (nm, len(w.v))]
        w.v.append(p)
        q = len(w.v) - 1
        w.t[i] = None
        w.t += [[x[0], x[1], q], [x[1], x[2], q], [x[2], x[0], q]]
        out.append("m_get A %d" % i)
    return out + ["m_measure A"]

def cutpair(rng):
    """two meshes that may cross, touch or miss"""
    def tri(s):
        if rng.random() < .5: return [[rng.randint(-4, 4) / 2 * s for _ in range(3)] for _ in range(3)]
        return [[rng.uniform(-2, 2) * s for _ in range(3)] for _ in range(3)]
    s = rng.choice([1, 1, 10, 0.1])
    def ld(n, k):
        v, t = [], []
        for i in range(k):
            x = tri(s)
            t.append("%d %d %d %d" % (len(v), len(v) + 1, len(v) + 2, 1 if rng.random() < .2 else 0)); v += x
        return "m_load %s -1 %s %d %s" % (n, gen.pts(v), k, " ".join(t))
    out = [ld("A", rng.randint(1, 4)), ld("B", rng.randint(1, 4)), "m_boolean A B"]
    if rng.random() < .4: out.append("m_boolean B A")
    return out

def splitter(rng):
    """one triangle of a mesh and a triangle pricking or crossing it"""
    v = [[0, 0, 0], [4, 0, 0], [0, 4, 0], [0, 0, 4]]
    t = [(0, 1, 2), (0, 2, 3), (1, 3, 2)]
    if rng.random() < .5:
        rng.shuffle(t)
    out = ["m_load A -1 %s 3 %s" % (gen.pts(v), " ".join("%d %d %d 0" % x for x in t))]
    for _ in range(rng.randint(1, 3)):
        k = rng.randrange(6)
        p = [rng.randint(1, 6) / 2 for _ in range(2)]
        if k == 0: s = [[p[0], p[1], -1], [p[0], p[1], 1], [p[0] + rng.randint(-8, 8), p[1] + rng.randint(-8, 8), 2]]
        elif k == 1: s = [[p[0], p[1], 0], [p[0], p[1], 1], [p[0] + 1, p[1], 1]]
        elif k == 2: s = [[rng.uniform(-1, 5) for _ in range(3)] for _ in range(3)]
        elif k == 3: s = [[p[0], p[1], -1], [p[0] + 1, p[1], 2], [p[0], p[1] + .5, 3]]
        else:              # a corner in the plane of the triangle, the opposite side through it
            d = [rng.choice([0, .5, 1]) for _ in range(2)]
            s = [[p[0] - d[0], p[1] - d[1], -1], [p[0] + d[0], p[1] + d[1], 1], [rng.randint(-6, 6), rng.randint(-6, 6), 0]]
        rng.shuffle(s)
        i = 0 if k > 3 and rng.random() < .4 else rng.randrange(3)
        out += ["m_split_tri A %d %s" % (i, " ".join(gen.pt(q) for q in s))] * rng.choice([1, 1, 2])
        if rng.random() < .2: out.insert(1, "m_unlink A %d" % rng.randrange(3))
    return out

def run(ctx):
    rng, scripts = ctx.rng, []
    for k, (start, v, t, d) in enumerate([("pair", 6, 14, 2), ("tetra", 6, 16, 2)] if ctx.quick else [("pair", 6, 14, 3), ("tetra", 6, 16, 3)]):
        h = gen.dedup_prefixes(ctx.model("MeshMC", CFG % (start, v, t, d)))
        key = [c for c in h if any(x.startswith(("m_split", "m_flip", "m_add_quad", "m_add_pent")) for x in c)]
        for i, c in enumerate(gen.sample(rng, key, ctx.n(350, 5000))): scripts.append(("mc-%d-%d" % (k, i), c + ["m_measure A"]))
    # every edge, from every rotation of both triangles, of every base
    n = 0
    for name in BASES:
        v, t = BASES[name]
        for (a, b, i, j) in Sim(v, t).edges():
            for r1 in range(3):
                for r2 in range(3):
                    if ctx.quick and name == "octa" and rng.random() < .6: continue
                    u = [list(x) for x in t]
                    u[i] = u[i][r1:] + u[i][:r1]; u[j] = u[j][r2:] + u[j][:r2]
                    p = [(v[a][c] * 3 + v[b][c]) / 4 for c in range(3)]
                    scripts.append(("edge-%s-%d" % (name, n), ["m_load A -1 %s %d %s" % (gen.pts(v + [p]), len(u), " ".join("%d %d %d 0" % tuple(x) for x in u)),
                                    "m_split_edge A %d %d %d %d %d" % (i, j, a, b, len(v)), "m_measure A"]))
                    n += 1
    for i in range(ctx.n(150, 2000)): scripts.append(("refine-%d" % i, refine(rng, rng.choice(list(BASES)), rng.randint(1, 8), flip=rng.random() < .3)))
    for i in range(ctx.n(120, 1500)):      # quads and pentagons over points
        s = []
        for _ in range(3):
            if rng.random() < .6: s.append("m_add_quad_p A %s %d" % (gen.pts([gen.rpoint(rng, rng.choice([0, 1, 2, 3])) for _ in range(4)]), rng.randrange(3)))
            else:
                s += ["m_new A"] + ["m_add_vertex A " + gen.pt(gen.rpoint(rng, 3)) for _ in range(5)]
                s.append(rng.choice(["m_add_pentagon A " + gen.iv(rng.sample(range(5), 5)), "m_add_quad A " + gen.iv(rng.sample(range(5), 4))]))
        scripts.append(("poly-%d" % i, s + ["m_measure A"]))
    for i in range(ctx.n(150, 2500)): scripts.append(("cut-%d" % i, cutpair(rng)))
    for i in range(ctx.n(150, 2500)): scripts.append(("prick-%d" % i, splitter(rng)))
    for i in range(ctx.n(6, 60)):          # edits inside a large sheet
        w = rng.choice([7, 9, 12])
        v = [[x, y, rng.randint(-8, 8) / 8] for y in range(w) for x in range(w)]
        t = [q for y in range(w - 1) for x in range(w - 1) for a in [y * w + x] for q in ([a, a + 1, a + w + 1], [a, a + w + 1, a + w])]
        t = [x[r:] + x[:r] for x in t for r in [rng.randrange(3)]]
        rng.shuffle(t)
        e = rng.choice(Sim(v, t).edges())
        p = [(v[e[0]][c] + v[e[1]][c]) / 2 for c in range(3)]
        far = rng.choice([x for x in range(len(t)) if x not in e[2:]])
        scripts.append(("sheet-%d" % i, ["m_load A -1 %s %d %s" % (gen.pts(v + [p]), len(t), " ".join("%d %d %d 0" % tuple(x) for x in t)),
                                         "m_split_p A %d %s" % (far, gen.pt([sum(v[q][c] for q in t[far]) / 3 for c in range(3)])),
                                         "m_split_edge A %d %d %d %d %d" % (e[2], e[3], e[0], e[1], len(v)), "m_flip A %d" % (len(t) + 4), "m_get A -1", "m_measure A"]))
    for i in range(ctx.n(6, 40)):
        k, q = rng.choice(POLY), rng.choice(POLY)
        scripts.append(("bool-%d" % i, ["m_factory A %s 1 1 1" % k, "m_factory B %s 1 %s 1" % (q, rng.choice(["1", "0.8", "1.3"])), "m_transform B translation 3 0.3 0.2 0.1",
                                         "m_unlink A 1", "m_unlink B 0", "m_boolean A B"]))
    ctx.validate(scripts)
