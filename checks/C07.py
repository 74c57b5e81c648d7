"""C07: tessellation subdivides every triangle exactly."""
from lib import gen
from checks.C05 import load
TECHNIQUE = "TLA+ relation over integer lattices (subdivision into n*n oriented unit triangles, checked by TLC for the stripe scheme and for its mutations); every recorded tessellation checked by TLC against it in exact arithmetic"
MC = """SPECIFICATION Spec
CONSTANTS NVert = 3 NPool = 2 Depth = 1 Ops = {"drop"} Emit = FALSE
VIEW View
PROPERTIES DropSound
"""
SHAPES = [("tetrahedron", 1), ("box", 1), ("octahedron", 1), ("icosahedron", 1), ("cylinder", 1)]

def run(ctx):
    rng, scripts = ctx.rng, []
    ctx.model("MeshOpsMC", MC)       # evaluates the lattice assumptions
    kinds = [0, 1, 2, 3, 5]
    for n in range(1, ctx.n(9, 17)):
        for i in range(ctx.n(4, 12)):      # one triangle, every n, arbitrary shape
            v = [gen.rpoint(rng, rng.choice(kinds)) for _ in range(3)]
            scripts.append(("one-%d-%d" % (n, i), ["m_load A -1 %s 1 0 1 2 0" % gen.pts(v), "m_tessellate B A %d" % n, "m_measure A", "m_measure B"]))
    for i in range(ctx.n(120, 1500)):
        nv = rng.randint(3, 7)
        v = [gen.rpoint(rng, rng.choice([0, 1, 3])) for _ in range(nv)]
        nt = rng.randint(0, 5)
        s = [load(rng, v, nt, dead=0.35), "m_tessellate B A %d" % rng.randint(1, 4)]
        if rng.random() < .3: s.append("m_tessellate C B %d" % rng.randint(1, 2))
        if rng.random() < .5: s += ["m_unlink A 0" if nt else "m_get A -1", "m_tessellate B A %d" % rng.randint(1, 4)]   # reused output
        if rng.random() < .3: s += ["m_measure A", "m_measure B"]
        scripts.append(("mesh-%d" % i, s))
    for i, (k, lod) in enumerate(SHAPES):
        a = [2.0, 3.0, 1.5]
        for n in ([2, 3] if ctx.quick else [1, 2, 3, 4, 5]):
            scripts.append(("shape-%d-%d" % (i, n), ["m_factory A %s %s %d" % (k, gen.ds(a), lod), "m_tessellate B A %d" % n, "m_unlink A 1", "m_tessellate B A %d" % n, "m_measure B"]))
    # degenerate inputs are subdivided like all others
    for i, v in enumerate([[[0, 0, 0], [1, 0, 0], [2, 0, 0]], [[1, 1, 1]] * 3, [[0, 0, 0], [0, 0, 0], [1, 2, 3]]]):
        for n in (1, 2, 3): scripts.append(("flat-%d-%d" % (i, n), ["m_load A -1 %s 1 0 1 2 0" % gen.pts(v), "m_tessellate B A %d" % n]))
    ctx.validate(scripts)
