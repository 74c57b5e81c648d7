"""C01: a mesh is exactly what its edit history implies."""
from lib import gen

CFG = """SPECIFICATION Spec
CONSTANTS Start = "%s" MaxV = %d MaxT = %d Depth = %d Full = FALSE Emit = TRUE Sim = FALSE
VIEW View
INVARIANT Inv
PROPERTY Stable
ACTION_CONSTRAINT EmitAll
"""
SIM = """SPECIFICATION Spec
CONSTANTS Start = "%s" MaxV = %d MaxT = %d Depth = %d Full = TRUE Emit = TRUE Sim = TRUE
INVARIANTS Inv EmitEnd
"""

def reads(rng, h):
    """sprinkle read accessors and a transform over a history"""
    out, nt = [], 0
    for c in h:
        out.append(c)
        if c.startswith("m_add_triangle"): nt += 1
        if c.startswith("m_clear"): nt = 0
        if nt and rng.random() < 0.15: out.append("m_get A %d" % rng.randrange(nt))
        if rng.random() < 0.04: out.append("m_get A -1")
        if rng.random() < 0.06: out.append("m_transform A " + gen.transform(rng))
    out.append("m_get A -1")
    return out

def kernel_history(rng, n):
    """the same primitive edits on both storage back ends"""
    out, nv, nt = [], 0, 0
    def both(c, a): out.extend(["%s T %s" % (c, a), "%s L %s" % (c, a)] if rng.random() < .8 else ["%s L %s" % (c, a), "%s T %s" % (c, a)])
    for _ in range(n):
        r = rng.random()
        if nv < 3 or r < .3: both("k_add_vertex", gen.pt(gen.rpoint(rng))); nv += 1
        elif r < .45: both("k_set_vertex", "%d %s" % (rng.randrange(nv), gen.pt(gen.rpoint(rng))))
        elif r < .8 or nt == 0: both("k_add_triangle", " ".join(str(rng.randrange(nv)) for _ in range(3))); nt += 1
        elif r < .97: both("k_unlink", str(rng.randrange(nt)))
        else: both("k_clear", ""); nv = nt = 0
    return out

def mesh_history(rng, n):
    """longer mixed histories with arbitrary coordinates, several objects"""
    out, live, nv, nt = [], [], 0, 0
    for _ in range(n):
        r = rng.random()
        if nv < 5 or r < .15:
            out.append("%s A %s" % (rng.choice(["m_add_vertex", "m_add_vertex3"]), gen.pt(gen.rpoint(rng)))); nv += 1
        elif r < .25: out.append("m_set_vertex A %d %s" % (rng.randrange(nv), gen.pt(gen.rpoint(rng))))
        elif r < .40: out.append("m_add_triangle A %d %d %d" % tuple(rng.randrange(nv) for _ in range(3))); live.append(nt); nt += 1
        elif r < .45: out.append("m_add_triangle_p A " + " ".join(gen.pt(gen.rpoint(rng)) for _ in range(3))); live.append(nt); nt += 1; nv += 3
        elif r < .52: out.append("m_add_quad A " + gen.iv(rng.sample(range(nv), 4))); live += [nt, nt + 1]; nt += 2
        elif r < .57:
            out.append("m_add_quad_p A %s %d" % (gen.pts([gen.rpoint(rng, rng.choice([0, 1, 2, 3])) for _ in range(4)]), rng.randrange(3))); live += [nt, nt + 1]; nt += 2; nv += 4
        elif r < .60: out.append("m_add_pentagon A " + gen.iv(rng.sample(range(nv), 5))); live += [nt, nt + 1, nt + 2]; nt += 3
        elif r < .70 and live: out.append("m_unlink A %d" % live.pop(rng.randrange(len(live))))
        elif r < .72 and nt: t = rng.randrange(nt); out.append("m_unlink A %d" % t); live = [x for x in live if x != t]
        elif r < .78 and live: t = live.pop(rng.randrange(len(live))); out.append("m_flip A %d" % t); live.append(nt); nt += 1
        elif r < .84 and live:
            t = live.pop(rng.randrange(len(live))); out.append("m_split_p A %d %s" % (t, gen.pt(gen.rpoint(rng)))); live += [nt, nt + 1, nt + 2]; nt += 3; nv += 1
        elif r < .88 and live:
            t = live.pop(rng.randrange(len(live))); out.append("m_split_v A %d %d" % (t, rng.randrange(nv))); live += [nt, nt + 1, nt + 2]; nt += 3
        elif r < .92: out.append("m_transform A " + gen.transform(rng))
        elif r < .96: out.append("m_get A %d" % (rng.randrange(nt) if nt else -1))
        elif r < .98: out.append("m_color A %d" % rng.choice([-1, 0, 255, 0xffffff, 12345]))
        elif r < .985: out.append("m_clear A"); nv = nt = 0; live = []
        elif r < .99: out.append("m_unlink A %d" % rng.randrange(nt) if nt else "m_get A -1"); live = []
    return out + ["m_get A -1"]

def big_history(rng, n):
    """primitive edits far from the start of long arrays"""
    nv, nt = rng.choice([130, 260, 300]), rng.choice([140, 270, 300])
    v = [gen.rpoint(rng, 3) for _ in range(nv)]
    dead = set(rng.sample(range(nt), rng.choice([0, 1, 20])))
    t = [rng.sample(range(nv), 3) for _ in range(nt)]
    out = ["m_load A 7 %s %d %s" % (gen.pts(v), nt, " ".join("%d %d %d %d" % (a, b, c, i in dead) for i, (a, b, c) in enumerate(t)))]
    live = [i for i in range(nt) if i not in dead]
    for _ in range(n):
        k, x = rng.randrange(9), live.pop(rng.choice([-1, -1, 0, rng.randrange(len(live))]))
        if k == 0: out.append("m_unlink A %d" % x)
        elif k == 1: out.append("m_flip A %d" % x); live.append(nt); nt += 1
        elif k == 2: out.append("m_split_p A %d %s" % (x, gen.pt(gen.rpoint(rng, 3)))); nv += 1; live += [nt, nt + 1, nt + 2]; nt += 3
        elif k == 3: out.append("m_split_v A %d %d" % (x, rng.randrange(nv))); live += [nt, nt + 1, nt + 2]; nt += 3
        else:
            live.append(x)
            if k == 4: out.append("m_set_vertex A %d %s" % (rng.choice([nv - 1, 0, rng.randrange(nv)]), gen.pt(gen.rpoint(rng, 3))))
            elif k == 5: out.append("m_add_triangle A %d %d %d" % tuple(rng.sample(range(nv), 3))); live.append(nt); nt += 1
            elif k == 6: out.append("m_add_vertex A " + gen.pt(gen.rpoint(rng, 3))); nv += 1
            elif k == 7: out.append("m_get A %d" % rng.randrange(nt))
            else: out.append("m_add_quad A " + gen.iv(rng.sample(range(nv), 4))); live += [nt, nt + 1]; nt += 2
    return out + ["m_get A -1"]

def run(ctx):
    rng, hs = ctx.rng, []
    for start, v, t, d in [("empty", 5, 5, 5), ("pair", 6, 12, 2), ("tetra", 6, 14, 2)] if ctx.quick else \
                          [("empty", 5, 5, 6), ("pair", 6, 12, 3), ("tetra", 6, 14, 3)]:
        hs.append(gen.dedup_prefixes(ctx.model("MeshMC", CFG % (start, v, t, d))))
    sim = []
    for start in ("empty", "pair", "tetra"):
        sim += ctx.model("MeshMC", SIM % (start, 8, 40, 25), workers=1,
                         args=["-simulate", "num=%d" % ctx.n(60, 600), "-depth", "30", "-seed", str(ctx.seed)])
    scripts = []
    for k, h in enumerate(hs):
        for i, c in enumerate(gen.sample(rng, h, ctx.n(350, 5000))): scripts.append(("state-%d-%d" % (k, i), reads(rng, c)))
    for i, c in enumerate(gen.sample(rng, sim, ctx.n(250, 3000))): scripts.append(("sim-%d" % i, reads(rng, c)))
    for i in range(ctx.n(60, 600)): scripts.append(("mixed-%d" % i, mesh_history(rng, 40)))
    for i in range(ctx.n(60, 600)): scripts.append(("kernel-%d" % i, kernel_history(rng, 40)))
    for i in range(ctx.n(8, 60)): scripts.append(("big-%d" % i, big_history(rng, 6)))
    for i in range(ctx.n(3, 20)): scripts.append(("kernel-big-%d" % i, kernel_history(rng, 260)))
    ctx.validate(scripts)
