"""C05: merging vertices only joins vertices closer than the tolerance."""
from lib import gen
TECHNIQUE = "TLA+ relation and abstract algorithm for merging (TLC, exhaustive over small meshes); replay of every explored history and of seeded meshes, each recorded result checked by TLC against the relation in exact arithmetic"
CFG = """SPECIFICATION Spec
CONSTANTS NVert = %d NPool = %d Depth = %d Ops = {%s} Emit = TRUE
VIEW View
PROPERTIES MergeSound DropSound DeadBlind
ACTION_CONSTRAINT EmitAll
"""

def cloud(rng):
    """a mesh with clusters of coinciding, close, chained and far vertices"""
    tol = rng.choice([1e-6, 1e-3, 0.1, 0.5, 1.0, 2.5, 1e-9])
    v = []
    n = rng.randint(1, 5)
    for _ in range(n):
        p = gen.rpoint(rng, rng.choice([0, 1, 2, 3]))
        v.append(p)
        for _ in range(rng.randrange(4)):
            k = rng.randrange(4)
            if k == 0: v.append(list(p))
            elif k == 1: v.append([c + tol * rng.uniform(-0.4, 0.4) for c in p])
            elif k == 2: v.append([p[0] + tol * rng.choice([0.9, 1.1, 0.99, 1.01]), p[1], p[2]])
            else:
                q = list(v[-1]); q[rng.randrange(3)] += tol * 0.8; v.append(q)
    while len(v) < 3: v.append(gen.rpoint(rng, 0))
    rng.shuffle(v)
    return tol, v

def lattice(rng, n):
    """points of a small lattice: many distances are exactly the tolerance"""
    tol = rng.choice([0.5, 1, 1.25, 1.5, 2.5, 5, 3, 0])
    k = rng.choice([1, 2, 4, 8])
    return tol, [[rng.randint(-8, 8) / k if rng.random() < .7 else 0 for _ in range(3)] for _ in range(n)]

def load(rng, v, nt, dead=0.2, col=None):
    t = []
    for _ in range(nt):
        x = [rng.randrange(len(v)) for _ in range(3)] if rng.random() < .15 else rng.sample(range(len(v)), 3)
        t.append("%d %d %d %d" % (x[0], x[1], x[2], 1 if rng.random() < dead else 0))
    return "m_load A %d %s %d %s" % (rng.choice([-1, 255, 77]) if col is None else col, gen.pts(v), nt, " ".join(t))

def run(ctx):
    rng, scripts = ctx.rng, []
    h = gen.dedup_prefixes(ctx.model("MeshOpsMC", CFG % ((4, 3, 2, '"merge", "drop"') if ctx.quick else (4, 5, 2, '"merge", "drop"'))))
    for i, c in enumerate(gen.sample(rng, h, ctx.n(1500, 20000))): scripts.append(("mc-%d" % i, c))
    for i in range(ctx.n(250, 4000)):
        tol, v = cloud(rng)
        s = [load(rng, v, rng.randint(0, 6)), "m_merge A %s" % gen.fh(tol)]
        if rng.random() < .5: s.append("m_merge A %s" % gen.fh(tol))
        if rng.random() < .3: s.append("m_merge A %s" % gen.fh(tol * rng.choice([2, 10, 0.1])))
        if rng.random() < .2: s.append("m_merge_default A")
        if rng.random() < .2: s += ["m_append A A", "m_merge A %s" % gen.fh(tol)]
        if rng.random() < .1: s = [s[0], "m_merge A 0"]
        scripts.append(("cloud-%d" % i, s))
    for i in range(ctx.n(120, 2000)):
        tol, v = lattice(rng, rng.randint(3, 12))
        scripts.append(("lattice-%d" % i, [load(rng, v, rng.randint(1, 8)), "m_merge A %s" % gen.fh(tol), "m_merge A %s" % gen.fh(tol)]))
    for i in range(ctx.n(3, 20)):              # many vertices
        tol, v = lattice(rng, rng.choice([70, 130, 260]))
        scripts.append(("many-%d" % i, [load(rng, v, len(v)), "m_merge A %s" % gen.fh(tol)]))
    # soups: separate triangles of one surface, as a tessellation or a converter produces them
    for i in range(ctx.n(6, 30)):
        k = rng.choice(["tetrahedron", "octahedron", "icosahedron", "dodecahedron"])
        r = rng.choice([0.01, 1, 3, 250])
        scripts.append(("soup-%d" % i, ["m_factory B %s 1 %s 1" % (k, gen.fh(r)), "m_tessellate A B %d" % rng.randint(1, 2), "m_merge A %s" % gen.fh(r * 1e-4),
                                        "m_merge A %s" % gen.fh(r * 1e-4)]))
    ctx.validate(scripts)
