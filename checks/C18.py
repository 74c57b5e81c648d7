"""C18: sampling a curve or surface gives points on it, all of it, seamlessly."""
from lib import gen, ngen
from checks.C17 import solid, surf, SOLIDS, SURFS
from checks.C13 import MC
TECHNIQUE = "TLA+ specification of polylines and sampled meshes (parameter, count, connectivity, seams, append or replace) over the exact B-spline definition; recorded samplings of random, model-generated and factory shapes into dirty targets checked by TLC"

def run(ctx):
    rng, scripts = ctx.rng, []
    h = gen.dedup_prefixes(ctx.model("NurbsMC", MC % 1))
    for i, c in enumerate(gen.sample(rng, h, ctx.n(30, 200))): scripts.append(("mc-%d" % i, c + ["c_poly A %d" % rng.choice([0, 5])]))
    h = gen.dedup_prefixes(ctx.model("NurbsMC", MC.replace('"curve"', '"surface"') % 1))
    for i, c in enumerate(gen.sample(rng, h, ctx.n(20, 200))): scripts.append(("mcs-%d" % i, c + ["n_mesh M A %d %d" % (rng.randint(1, 2), rng.choice([0, 1, 2])), "n_ctrl M A"]))
    for i in range(ctx.n(50, 800)):
        c, d, n, k = ngen.curve(rng, "A", d=rng.choice([1, 2, 3]), n=rng.choice([None, 4, 5, 7, 11]))
        scripts.append(("poly-%d" % i, c + ["c_poly A %d" % rng.choice([0, 1, 200])]))
    def into(): return rng.choice(["n_mesh M A %d 0", "n_mesh M A %d 1", "n_mesh M A %d 2"])
    for i in range(ctx.n(50, 800)):
        c, U, V = ngen.surface(rng, "A", du=rng.choice([1, 2, 3]), dv=rng.choice([1, 2]), nu=rng.choice([None, 3, 5, 4]) if False else None)
        s = list(c) + rng.choice([[], ["m_color M 255", "m_factory M tetrahedron 1 1 1", "m_unlink M 2"], ["m_add_vertex M 1 2 3"]])
        if rng.random() < .35: s.append("n_closed_u A 1")
        if rng.random() < .35: s.append("n_closed_v A 1")
        for _ in range(rng.randint(1, 3)): s.append(into() % rng.choice([1, 1, 2, 3]))
        if rng.random() < .5: s.append("n_ctrl M A")
        if rng.random() < .3: s += ["n_mesh M A 5 3"] if U[1] * V[1] <= 9 else []
        if rng.random() < .2: s += ["n_clear A", "n_mesh M A 2 0", "n_mesh M A 2 1", "n_ctrl M A"]
        scripts.append(("surface-%d" % i, s))
    for i in range(ctx.n(12, 150)):          # one row of control points, steps along it; nothing at all; over a used target
        nu, dv = rng.choice([1, 1, 2, 3]), rng.choice([0, 1, 2])
        nv = dv + rng.randint(1, 3)
        ku, kv = [j / nu for j in range(nu + 1)], ngen.knots(rng, dv, nv) if dv else [j for j in range(nv + 1)]
        s = ["n_degree A 0 %d" % dv, "n_points A %s %d %d" % (gen.pts(ngen.points(rng, nu * nv)), nu, nv), "n_knots_u A %s" % gen.ds(ku), "n_knots_v A %s" % gen.ds(kv), "n_weights A %s" % gen.ds(ngen.weights(rng, nu * nv))]
        if rng.random() < .3: s = ["n_new A"] if rng.random() < .5 else s + ["n_clear A"]
        for _ in range(2): s += ["m_factory M tetrahedron 1 1 1", rng.choice(["n_ctrl M A", into() % rng.choice([1, 2])])]
        scripts.append(("row-%d" % i, s))
    for i in range(ctx.n(4, 40)):            # many control points
        c, U, V = ngen.surface(rng, "A", du=rng.choice([1, 2]), dv=1, nu=rng.choice([6, 9]), nv=rng.choice([5, 8]))
        scripts.append(("large-%d" % i, c + ["n_closed_%s A 1" % rng.choice("uv") if rng.random() < .5 else "m_color M 3", "n_ctrl M A", "n_mesh M A 1 %d" % rng.choice([0, 1, 2])]))
    for i in range(ctx.n(4, 40)):
        c, d, n, k = ngen.curve(rng, "A", d=rng.choice([1, 2]), n=rng.choice([18, 35, 70]))
        scripts.append(("long-%d" % i, c + ["c_poly A 0"]))
    for i in range(ctx.n(20, 150)):          # closed constructions and several surfaces
        s = []
        for j in range(rng.randint(0, 3)):
            x = rng.random()
            s += [surf(rng, "S", rng.choice(SURFS[:3]))] if x < .5 else ["n_clear S"] if x < .7 else ngen.surface(rng, "S", du=1, dv=2)[0]
            s.append("o_add O S")
        if not s: s = ["o_new O"]
        s += ["m_factory M box 3 1 1 1 1", "o_mesh M O %d 2" % rng.randint(1, 2)]
        if rng.random() < .3: s += ["o_clear O", "o_mesh M O 1 2"]
        scripts.append(("solid-%d" % i, s))
    for i in range(ctx.n(12, 60)):
        k = SURFS[2 + i % 3]
        scripts.append(("closed-%d" % i, [surf(rng, "A", k), "n_mesh M A 1 1", "n_mesh M A %d 0" % rng.randint(1, 2)]))
    for i in range(ctx.n(8, 60)):            # shapes of every size: a mesh, its surfaces, their mesh
        k, e = rng.choice(["tetrahedron", "octahedron", "box", "icosahedron"]), gen.fh(10 ** rng.uniform(-9, 5))
        scripts.append(("sized-%d" % i, ["m_factory N %s %s 1" % (k, ("3 %s %s %s" % (e, e, e)) if k == "box" else "1 " + e), "o_from_mesh O N", "o_mesh M O 1 2"]))
    scripts.append(("solid-default", ["n_factory S quad 12 0 0 0 1 0 0 1 1 0 0 1 0", "o_add O S", "n_factory S triangle 9 0 0 0 1 0 0 1 1 3", "o_add O S", "o_mesh M O 5 3"]))
    ctx.validate(scripts)
