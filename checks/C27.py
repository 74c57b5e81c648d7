"""C27: Bezier patches and smooth meshes interpolate what defines them."""
from lib import gen
TECHNIQUE = "TLA+ Bernstein definition of rational Bezier triangles, their sampling and smooth meshes (TLC: corner and edge interpolation, hull, affine covariance, every setter order); explored and seeded histories replayed on the code, hidden control points tracked by the specification and compared through probe points and samples"
CFG = """SPECIFICATION Spec
CONSTANTS Depth = %d Emit = TRUE
INVARIANTS Laws
ACTION_CONSTRAINT EmitAll
"""
def P(rng, n, k=None): return gen.pts([gen.rpoint(rng, k) for _ in range(n)])
def weights(rng): return gen.ds([0 if k > 2 and rng.random() < .1 else rng.choice([1, 1, 2, 0.5, 10 ** rng.uniform(-2, 2)]) for k in range(6)])
def bary(rng):
    k = rng.randrange(5)
    if k == 0: return rng.choice([(1, 0), (0, 1), (0, 0)])
    if k == 1:
        t = rng.random(); return rng.choice([(t, 0), (0, t), (t, 1 - t)])
    s = rng.random(); return s, rng.random() * (1 - s)
def setter(rng, m):
    k = rng.randrange(4)
    if k == 0: return "b_points %s %s" % (m, P(rng, 3))
    if k == 1: return "b_control %s %s" % (m, P(rng, 3))
    if k == 2: return "b_weights %s %s" % (m, weights(rng))
    return "b_transform %s %s" % (m, gen.transform(rng))
def ev(rng, m):
    q = [bary(rng) for _ in range(5)]
    return "b_eval %s %s %s" % (m, gen.ds([x[0] for x in q]), gen.ds([x[1] for x in q]))
def shape(rng):
    k = rng.choice(["tetrahedron", "box", "octahedron", "dodecahedron", "icosahedron", "sphere", "sphere"])
    a = [rng.choice([1, 2, 0.5, 10, 1e-3, 1e3, rng.uniform(.1, 20)]) for _ in range(3 if k == "box" else 1)]
    return "%s %s" % (k, gen.ds(a))

def run(ctx):
    rng, scripts = ctx.rng, []
    h = gen.dedup_prefixes(ctx.model("BezierMC", CFG % (3 if ctx.quick else 4)))
    for i, c in enumerate(gen.sample(rng, h, ctx.n(500, 6000))): scripts.append(("mc-%d" % i, c))
    for i in range(ctx.n(200, 3000)):
        s = []
        for _ in range(rng.randint(2, 6)):
            s.append(setter(rng, rng.choice("AAB")))
            if rng.random() < .6: s.append(ev(rng, "A"))
            if rng.random() < .2: s.append(rng.choice(["b_copy B A", "b_assign A B", "b_assign A A", "b_new A"]))
            if rng.random() < .25: s.append("b_mesh M A %d" % rng.choice([1, 2, 3, 4, 5, 8]))
            if rng.random() < .1: s.append(rng.choice(["m_color M 77", "m_clear M", "m_add_triangle_p M 1 2 3 4 5 6 7 8 9"]))
            if rng.random() < .15: s += ["b_transform A " + gen.transform(rng), "b_weights A " + gen.ds([1] * 6)]
        scripts.append(("patch-%d" % i, s))
    for i in range(ctx.n(220, 3000)):
        s = []
        for _ in range(rng.randint(3, 9)):
            m = rng.choice("ST")
            k = rng.randrange(15)
            if k == 0: s += [setter(rng, "A"), "sm_add %s A" % m, setter(rng, "A")]
            elif k == 1: s.append("sm_flat_triangle %s %s" % (m, P(rng, 3)))
            elif k == 2: s.append("sm_flat_quad %s %s" % (m, P(rng, 4)))
            elif k == 3: s.append("sm_flat_pentagon %s %s" % (m, P(rng, 5)))
            elif k == 4: s.append("%s %s %s" % (rng.choice(["sm_copy", "sm_assign"]), m, rng.choice("ST")))
            elif k == 5: s.append("sm_append %s %s" % (m, rng.choice("ST")))
            elif k == 6: s.append(rng.choice(["sm_clear ", "sm_new "]) + m)
            elif k == 7: s.append("sm_transform %s %s" % (m, gen.transform(rng)))
            elif k <= 10: s.append("sm_factory %s %s" % (m, shape(rng)))
            elif k == 11: s.append("sm_mesh M %s %d" % (m, rng.choice([1, 2, 3, 4])))
            elif k == 12: s += ["sm_flat_triangle %s %s" % (m, P(rng, 3)), "b_from_smooth A %s 0" % m, setter(rng, "A"), ev(rng, "A")]
            elif k == 13: s += ["m_new M", "sm_mesh M %s %d" % (m, rng.choice([1, 2, 5]))]
            else: s += ["q_points Q %s" % P(rng, 3), "q_normals Q %s" % gen.pts([gen.unit(rng) for _ in range(3)]), rng.choice(["q_control Q " + P(rng, 6), "q_center Q 1 2 3", "q_points Q " + P(rng, 3), "q_new Q"])]
        scripts.append(("smooth-%d" % i, s))
    for i in range(ctx.n(12, 150)):            # point-normal patches of every size, flat, hardly bent, folded
        s = []
        for _ in range(4):
            e, tilt = 10 ** rng.uniform(-7, 5), rng.choice([0, 10 ** rng.uniform(-6, 0), 1])
            f = gen.unit(rng)
            if rng.random() < .5: f = [0, 0, 1]
            q = [[e * rng.uniform(-1, 1) for _ in range(3)] for _ in range(3)]
            if f == [0, 0, 1]:
                for x in q: x[2] = 0
            ns = []
            for _ in range(3):
                d = [f[j] + tilt * rng.uniform(-1, 1) for j in range(3)]
                l = sum(x * x for x in d) ** .5 or 1
                ns.append([x / l for x in d])
            if rng.random() < .2: q[1] = list(q[0])
            s += ["q_points Q " + gen.pts(q), "q_normals Q " + gen.pts(ns)]
        scripts.append(("normals-%d" % i, s))
    for i in range(ctx.n(16, 200)):            # after vertices that no triangle uses, and between triangles
        s = ["m_add_vertex M 1 2 3"] * rng.randint(1, 3)
        for _ in range(3): s += rng.choice([[setter(rng, "A"), "b_mesh M A %d" % rng.randint(1, 3)], ["sm_factory S " + shape(rng), "sm_mesh M S 1"], ["m_add_vertex M 4 5 6"], ["m_unlink M 0"] if any("mesh M" in x for x in s) else ["m_color M 5"]])
        scripts.append(("loose-%d" % i, s + ["b_mesh M A 2"]))
    for i in range(ctx.n(24, 300)):            # many curved patches, copied, appended to themselves, moved
        s = []
        for _ in range(rng.randint(2, 4)): s += [setter(rng, "A"), "b_points A " + P(rng, 3), "b_control A " + P(rng, 3), "b_weights A " + weights(rng), "sm_add S A"]
        for _ in range(rng.randint(3, 4)): s.append(rng.choice(["sm_append S S", "sm_append S S", "sm_append T S", "sm_assign T S"]))
        s += [rng.choice(["sm_append T S", "sm_copy T S", "sm_assign T S"]), "sm_transform T " + gen.transform(rng), rng.choice(["sm_mesh M T 1", "sm_mesh M S 2", "sm_clear S", "sm_append S T"])]
        scripts.append(("many-%d" % i, s))
    for i in range(ctx.n(10, 80)):             # fine meshes
        n = rng.choice([9, 13, 16, 21, 30])
        scripts.append(("fine-%d" % i, ["b_points A " + P(rng, 3), "b_control A " + P(rng, 3), "b_weights A " + weights(rng), "b_mesh M A %d" % n, "b_mesh M A 2"] if i % 3 else ["sm_factory S " + shape(rng), "sm_mesh M S %d" % rng.choice([6, 7, 9])]))
    for i, k in enumerate(["tetrahedron 1 %s", "box 3 %s 1 2", "octahedron 1 %s", "dodecahedron 1 %s", "icosahedron 1 %s", "sphere 1 %s"]):
        for j, a in enumerate([1, 7.5, 1e-4, 1e4, 0.3]):
            scripts.append(("shape-%d-%d" % (i, j), ["sm_factory S " + k % gen.fh(a), "sm_mesh M S %d" % (1 + j % 4), "sm_factory S octahedron 1 2"]))
    scripts.append(("bernstein", ["g_bernstein " + gen.fh(u) for u in [0, 1, .5, .25, -1, 2] + [rng.random() for _ in range(60)] + [rng.uniform(-5, 5) for _ in range(20)]]))
    ctx.validate(scripts)
