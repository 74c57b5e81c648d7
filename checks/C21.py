"""C21: STEP output is a complete, consistent description of the geometry."""
from lib import gen, fgen, ngen
TECHNIQUE = "TLA+ specification of STEP writers and of the entity graph of their files (TLC: every short history of two writers, every single change of a file is noticed); explored and seeded histories replayed on the code, the exchange structure of every file parsed and judged by TLC"
CFG = """SPECIFICATION Spec
CONSTANTS Depth = %d Emit = TRUE
INVARIANT Described
ACTION_CONSTRAINT EmitAll
"""
def edit(rng, m, U, V):
    k = rng.randrange(8)
    if k == 0: return ["n_closed_u %s %d" % (m, rng.randrange(2))]
    if k == 1: return ["n_closed_v %s %d" % (m, rng.randrange(2))]
    if k == 2: return ["n_move %s 0 %s" % (m, gen.pt(fgen.point(rng)))]
    if k == 3: return ["n_equal " + m]
    return []
def refine(rng, m, U, V):
    s = []
    if rng.random() < .25:
        u = rng.choice([0.5, 0.3125, 0.77])
        if all(abs(u - x) > 1e-3 for x in U[2]): s.append("n_insert_u %s %s" % (m, gen.fh(u)))
    if rng.random() < .25:
        u = rng.choice([0.5, 0.3125, 0.77])
        if all(abs(u - x) > 1e-3 for x in V[2]): s.append("n_insert_v %s %s" % (m, gen.fh(u)))
    if rng.random() < .15 and U[0] < 3: s.append("n_elevate_u " + m)
    if rng.random() < .15 and V[0] < 3: s.append("n_elevate_v " + m)
    return s
def surf(rng, m):
    k = rng.randrange(10)
    if k < 7:
        c, U, V = ngen.surface(rng, m, clamped=rng.random() < .85)
        s = c
        if rng.random() < .4: s = s + (refine(rng, m, U, V) if U[2][0] == U[2][U[0]] and V[2][0] == V[2][V[0]] else [])
        return s + edit(rng, m, U, V)
    if k == 7:
        c = ngen.curve(rng, "K")[0]
        return c + [rng.choice(["n_extrude %s K 1 2 3" % m, "n_revolve %s K" % m, "n_ruled %s K K" % m])]
    if k == 8: return ["n_factory %s triangle %s" % (m, gen.ds([c for _ in range(3) for c in fgen.point(rng)]))]
    return ["n_factory %s quad %s" % (m, gen.ds([c for _ in range(4) for c in fgen.point(rng)]))]
def solid(rng, m):
    k = rng.randrange(6)
    if k == 0: return ["o_factory %s box 3 1 2.5 0.3" % m]
    if k == 1: return ["o_factory %s cylinder 2 2 1" % m]
    if k == 2: return ["o_factory %s sphere 1 1.7" % m]
    if k == 3: return ["o_factory %s torus 2 3 1" % m]
    if k == 4: return ["m_factory T tetrahedron 1 2 4", "o_from_mesh %s T" % m]
    return ["o_new " + m]

def run(ctx):
    rng, scripts = ctx.rng, []
    h = gen.dedup_prefixes(ctx.model("StepMC", CFG % ctx.n(4, 5), workers=8))
    for i, c in enumerate(gen.sample(rng, [x for x in h if sum("surf" in y or "solid" in y for y in x)], ctx.n(600, 8000))): scripts.append(("mc-%d" % i, c))
    for i in range(ctx.n(220, 3000)):          # one writer, several objects, files written again
        s = surf(rng, "A") + (surf(rng, "B") if rng.random() < .5 else []) + (solid(rng, "O") if rng.random() < .35 else [])
        hasB = any(" B" in x for x in s if x.startswith("n_")); hasO = any(x.startswith("o_") for x in s)
        s.append("sw_open W P1")
        for _ in range(rng.randint(1, 4)):
            k = rng.randrange(8)
            if k < 3: s.append("sw_surf W A")
            elif k == 3 and hasB: s.append("sw_surf W B")
            elif k == 4 and hasO: s.append("sw_solid W O")
            elif k == 5: s.append("n_move A 0 " + gen.pt(fgen.point(rng)))
            elif k == 6: s.append(rng.choice(["sw_open W P1", "sw_open W P2", "sw_close W"]))
            elif hasO and hasB: s.append("o_add O B")
        if rng.random() < .3: s.append("n_closed_u A 1")
        s.append(rng.choice(["sw_close W", "sw_del W"]))
        scripts.append(("write-%d" % i, s))
    for i in range(ctx.n(4, 40)):              # many control points, many surfaces
        s = ngen.surface(rng, "A", du=2, dv=rng.choice([1, 3]), nu=rng.choice([9, 12]), nv=rng.choice([8, 12]))[0] + ["n_factory B quad 12 0 0 0 1 0 0 1 1 0 0 1 0"]
        s += ["o_add O B"] * rng.choice([1, 12, 30]) + ["o_add O A", "sw_open W P1", "sw_solid W O", "sw_surf W A", "sw_close W"]
        scripts.append(("large-%d" % i, s))
    for i in range(ctx.n(2, 10)):              # more entities than four digits count
        n, k = rng.choice([(24, 21), (31, 17), (40, 11)]), rng.choice([10, 13])
        P = [[float(x), float(y), float((x * y) % 7)] for y in range(n[1]) for x in range(n[0])]
        s = ["n_degree A 1 2", "n_points A %s %d %d" % (gen.pts(P), *n), "n_uniform_u A", "n_uniform_v A", "n_equal A"] + ["o_add O A"] * k + ["n_move A 5 9 9 9", "sw_open W P1", "sw_solid W O", "sw_surf W A", "sw_close W"]
        scripts.append(("many-%d" % i, s))
    for i in range(ctx.n(60, 600)):            # knots that differ in the fourth, fifth or sixth digit
        c, U, V = ngen.surface(rng, "A")
        s = list(c)
        for d, K in (("u", U), ("v", V)):
            k = list(K[2])
            lo, hi = k[K[0]], k[-K[0] - 1]
            x = lo + (hi - lo) * rng.choice([.5, .3125, rng.uniform(.1, .9)])
            e = (hi - lo) * rng.choice([1e-3, 1e-4, 3e-5, 1e-5])
            for y in rng.choice([[x, x + e], [x, x + e, x + 2 * e], [hi - e], [lo + e], [x, x, x + e]]):
                if all(abs(y - z) > e / 2 or y == z for z in k) and ngen.mult(k, y) < K[0]: s.append("n_insert_%s A %s" % (d, gen.fh(y))); k.append(y)
        scripts.append(("fine-%d" % i, s + ["sw_open W P1", "sw_surf W A", "sw_close W"]))
    for i in range(ctx.n(12, 60)):             # whole solids
        s = []
        for m in "OQ": s += solid(rng, m)
        s += ["sw_open W P1", "sw_open V P2", "sw_solid W O", "sw_solid V Q", "sw_solid V O", "sw_close V", "sw_solid W Q", "sw_del W", "sw_open V P2", "sw_close V"]
        scripts.append(("solids-%d" % i, s))
    ctx.validate(scripts)
