"""C10: height-field and grid constructions use the right samples, for every size."""
from lib import gen, ngen
TECHNIQUE = "TLA+ relation between a sample grid and its mesh, surface or number field (TLC: every size up to 5x5 with every mix of diagonals; holes, flips and transposition excluded); every size and seeded grids built by the code in fresh and used objects, every vertex and cell checked by TLC"
CFG = """SPECIFICATION Spec
CONSTANTS W = %d H = %d Emit = TRUE
INVARIANTS Sound Tight EmitState
"""
def run(ctx):
    rng, scripts = ctx.rng, []
    h = ctx.model("GridMC", CFG % ((5, 5) if ctx.quick else (8, 7)))
    for i, c in enumerate(h): scripts.append(("size-%d" % i, c))
    def num(): return rng.choice([0, 1, -1, rng.uniform(-5, 5), rng.randint(-99, 99) / 8, rng.uniform(-1, 1) * 10 ** rng.randint(-8, 8)])
    def size(): return rng.choice([1, 2, 3, 4, 5, 7, 9, 12, 20, rng.randint(1, 30)]), rng.choice([1, 2, 3, 4, 6, 8, 11, rng.randint(1, 20)])
    def dirty(m):
        return rng.choice([["m_factory %s box 3 1 2 3 1" % m, "m_color %s %d" % (m, rng.randrange(1 << 24))], ["m_add_vertex %s 1 2 3" % m], ["m_add_triangle_p %s 0 0 0 1 0 0 0 1 0" % m, "m_unlink %s 0" % m],
                           ["m_from_z %s 2 3 6 1 2 3 4 5 6" % m], ["m_new %s" % m]])
    for i in range(ctx.n(260, 4000)):
        s = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            w, hh = size()
            if rng.random() < .4: s += dirty("A")
            k = rng.randrange(5)
            z = [num() for _ in range(w * hh)]
            if k <= 1: s.append("m_from_z A %d %d %s" % (w, hh, gen.ds(z)))
            elif k == 2: s.append("m_from_grid A %d %d %s" % (w, hh, gen.pts([gen.rpoint(rng) for _ in range(w * hh)])))
            elif k == 3:
                d = rng.choice([1, 1, 2, 3])
                w, hh = rng.randint(d + 1, d + 7), rng.randint(d + 1, d + 6)
                z = [num() for _ in range(w * hh)]
                if rng.random() < .4: s += ngen.surface(rng, "S")[0] + (["n_closed_u S 1"] if rng.random() < .5 else []) + (["n_closed_v S 1"] if rng.random() < .5 else [])
                s.append("n_from_z S %d %d %d %s" % (w, hh, d, gen.ds(z)))
                k = [0] * (d + 1) + [i / (w - d) for i in range(1, w - d)] + [1] * (d + 1)
                s.append(ngen.evals(rng, "S", (d, w, k), (d, hh, [0, 1]), 4))
                s.append("n_ctrl A S" if rng.random() < .6 else "n_mesh A S %d %d" % (1, rng.randrange(2)) if w * hh < 30 else "n_ctrl A S")
            else:
                p = rng.choice([1, 1, 3, 4])
                s.append("i_load I %d %d %d %s" % (w, hh, p, gen.iv([rng.randrange(256) for _ in range(w * hh * p)])))
                s.append("i_to_double I %s" % gen.ds([num() for _ in range(rng.choice([0, 3, w * hh, w * hh + 5]))]))
        scripts.append(("grid-%d" % i, s))
    ctx.validate(scripts)
