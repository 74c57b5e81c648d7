"""C06: removing empty triangles removes exactly the degenerate ones."""
from lib import gen
from checks.C05 import CFG, cloud, lattice, load
TECHNIQUE = "TLA+ relation and abstract algorithm for the removal (TLC, exhaustive over small meshes); replay of every explored history and of seeded meshes, each recorded result checked by TLC against the relation in exact arithmetic"

def run(ctx):
    rng, scripts = ctx.rng, []
    h = gen.dedup_prefixes(ctx.model("MeshOpsMC", CFG % ((4, 4, 1, '"drop"') if ctx.quick else (4, 5, 2, '"drop"'))))
    for i, c in enumerate(gen.sample(rng, h, ctx.n(1500, 20000))): scripts.append(("mc-%d" % i, c))
    for i in range(ctx.n(250, 4000)):
        tol, v = cloud(rng)
        s = [load(rng, v, rng.randint(1, 8)), "m_remove_empty A %s" % gen.fh(tol)]
        if rng.random() < .4: s.append("m_remove_empty A %s" % gen.fh(tol))
        if rng.random() < .3: s.append("m_remove_empty A %s" % gen.fh(tol * rng.choice([2, 10, 0.1])))
        if rng.random() < .2: s.append("m_remove_empty_default A")
        if rng.random() < .3: s += ["m_merge A %s" % gen.fh(tol), "m_remove_empty A %s" % gen.fh(tol)]
        if rng.random() < .2: s += ["m_add_triangle_p A " + " ".join(gen.pt(rng.choice(v)) for _ in range(3)), "m_remove_empty A %s" % gen.fh(tol)]
        scripts.append(("cloud-%d" % i, s))
    for i in range(ctx.n(120, 2000)):
        tol, v = lattice(rng, rng.randint(3, 12))
        scripts.append(("lattice-%d" % i, [load(rng, v, rng.randint(1, 8)), "m_remove_empty A %s" % gen.fh(tol), "m_remove_empty A %s" % gen.fh(tol)]))
    for i in range(ctx.n(3, 20)):              # many triangles
        tol, v = lattice(rng, rng.choice([70, 130, 260]))
        scripts.append(("many-%d" % i, [load(rng, v, len(v)), "m_remove_empty A %s" % gen.fh(tol)]))
    # a triangle with one coinciding pair, for every choice of the pair, by identity and by position
    for i in range(3):
        for j, d in enumerate([0.0, 1e-9, 5e-7, 2e-6, 1e-3]):
            p = [[0, 0, 0], [1, 0, 0], [0, 1, 0]]
            p[(i + 1) % 3] = [p[i][0] + d, p[i][1], p[i][2]]
            scripts.append(("pair-%d-%d" % (i, j), ["m_load A -1 %s 1 0 1 2 0" % gen.pts(p), "m_remove_empty_default A"]))
        x = [0, 1, 2]; x[i] = x[(i + 1) % 3]
        scripts.append(("ident-%d" % i, ["m_load A -1 %s 2 0 1 2 0 %d %d %d 0" % (gen.pts([[0, 0, 0], [1, 0, 0], [0, 1, 0]]), *x), "m_remove_empty_default A"]))
    ctx.validate(scripts)
