"""C09: measurements are the geometric quantities of the live triangles."""
from lib import gen
from checks.C05 import load
from checks.C08 import params, POLY, LOD
TECHNIQUE = "TLA+ definition of area, enclosed volume, degeneracy, orientation and closedness over live triangles; recorded measurements along edit histories (incl. every history TLC explored of the edit model) checked by TLC in exact arithmetic"
CFG = """SPECIFICATION Spec
CONSTANTS Start = "%s" MaxV = %d MaxT = %d Depth = %d Full = FALSE Emit = TRUE Sim = FALSE
VIEW View
INVARIANT Inv
PROPERTY Stable Refine
ACTION_CONSTRAINT EmitAll
"""

def run(ctx):
    rng, scripts = ctx.rng, []
    for k, (start, v, t, d) in enumerate([("empty", 4, 4, 4), ("pair", 6, 10, 2), ("tetra", 6, 12, 2)] if ctx.quick else
                                         [("empty", 5, 5, 5), ("pair", 6, 12, 3), ("tetra", 6, 14, 3)]):
        h = gen.dedup_prefixes(ctx.model("MeshMC", CFG % (start, v, t, d)))
        for i, c in enumerate(gen.sample(rng, h, ctx.n(250, 4000))):
            s = []
            for x in c:
                s.append(x)
                if rng.random() < .25: s.append("m_measure A")
            scripts.append(("mc-%d-%d" % (k, i), s + ["m_measure A"]))
    for i in range(ctx.n(200, 3000)):
        nv = rng.randint(3, 8)
        kinds = rng.choice([[0], [1], [2], [3], [0, 1, 3]])
        v = [gen.rpoint(rng, rng.choice(kinds)) for _ in range(nv)]
        z = rng.choice([1, 1, 1, 1e-3, 1e-5, 1e-8, 1e5])
        v = [[c * z for c in p] for p in v]
        s = [load(rng, v, rng.randint(0, 8), dead=.3), "m_measure A"]
        for _ in range(rng.randint(0, 3)):
            s += [rng.choice(["m_transform A " + gen.transform(rng), "m_transform A scale 3 " + " ".join([gen.fh(rng.choice([1e-4, 1e-7, 1e4]))] * 3), "m_copy A A", "m_append A A"]), "m_measure A"]
        scripts.append(("mesh-%d" % i, s))
    for i in range(ctx.n(6, 60)):            # many triangles
        nv, nt = rng.choice([40, 130, 270]), rng.choice([65, 130, 270])
        v = [gen.rpoint(rng, rng.choice([1, 3])) for _ in range(nv)]
        scripts.append(("many-%d" % i, [load(rng, v, nt, dead=rng.choice([0, .1, .9])), "m_measure A"]))
    for i in range(ctx.n(16, 100)):          # closed shapes, inside out and partly removed
        k = (POLY + LOD + ["box"])[i % 9]
        n = rng.randint(1, 2)
        s = ["m_factory A %s %s %d" % (k, gen.ds(params(rng, k)), n), "m_measure A", "m_transform A translation 3 10 -5 3", "m_measure A",
             "m_transform A scale 3 -1 2 0.5", "m_measure A"]
        s += ["m_unlink A %d" % t for t in rng.sample(range(4), rng.randint(1, 4))] + ["m_measure A"]
        scripts.append(("shape-%d" % i, s))
    scripts.append(("empty", ["m_new A", "m_measure A", "m_add_vertex A 1 2 3", "m_measure A", "m_clear A", "m_measure A"]))
    scripts.append(("all-removed", ["m_factory A tetrahedron 1 1 1"] + ["m_unlink A %d" % t for t in range(4)] + ["m_measure A", "m_clear A", "m_measure A"]))
    ctx.validate(scripts)
