"""C12: transforms are the rotations, scalings and translations they name."""
import math
from lib import gen, ngen
TECHNIQUE = "TLA+ definition of every transform over exact rationals (TLC: isometry, fixed axis, additive composition, cancellation, quaternion/matrix agreement); explored and seeded sequences applied by the code to points, meshes, surfaces and solids, every coordinate checked by TLC"
CFG = """SPECIFICATION Spec
CONSTANTS Depth = %d Emit = TRUE
INVARIANTS Laws
PROPERTIES Rigid Shift
ACTION_CONSTRAINT EmitAll
"""
SET = {"e": ["euler_set"], "q": ["quat_set", "quat_aa"], "m": ["mat_set", "mat_aa"], "a": ["aa_set", "aa_from"], "s": [], "t": []}
NEW = {"e": ["euler"], "q": ["quat", "quat_default"], "m": ["mat", "mat_default"], "a": ["aa", "aa_default"], "s": ["scale", "scale_default"], "t": ["translation"]}
def params(rng, k):
    while True:
        t = gen.transform(rng)
        if t.split(" ")[0] == k: return t

def repeated(rng, n):
    """points of which some appear again: next to each other, closing the list, or anywhere"""
    p = [gen.rpoint(rng) for _ in range(n)]
    for i in range(1, n):
        if rng.random() < .2: p[i] = list(p[rng.choice([i - 1, 0, rng.randrange(i)])])
    if n > 1 and rng.random() < .3: p[-1] = list(p[0])
    return gen.pts(p)

def run(ctx):
    rng, scripts = ctx.rng, []
    h = gen.dedup_prefixes(ctx.model("XformMC", CFG % (2 if ctx.quick else 3), workers=6))
    for i, c in enumerate(gen.sample(rng, h, ctx.n(500, 6000))): scripts.append(("mc-%d" % i, c))
    for i in range(ctx.n(400, 8000)):          # points
        s = []
        for _ in range(4):
            t = gen.transform(rng)
            k = t.split(" ")[0]
            s.append("x_apply %s %s" % (t, gen.pt(gen.rpoint(rng))))
            if rng.random() < .3: s.append("x_apply_all %s %s" % (t, repeated(rng, rng.randrange(9))))
            if k.startswith("mat"): s.append("x_matrix " + t)
        scripts.append(("point-%d" % i, s))
    for i in range(ctx.n(150, 2000)):          # a transform set again and again
        s = []
        c = rng.choice("eqmaqmast")
        s.append("t_new X " + params(rng, rng.choice(NEW[c])))
        for _ in range(rng.randint(2, 6)):
            if SET[c] and rng.random() < .6: s.append("t_set X " + params(rng, rng.choice(SET[c])))
            s.append(rng.choice(["t_apply X ", "t_apply X ", "t_apply Y "] if "t_copy Y X" in s else ["t_apply X "]) + repeated(rng, 3))
            if rng.random() < .3: s.append("t_copy Y X")
        scripts.append(("object-%d" % i, s))
    for i in range(ctx.n(150, 2000)):          # shapes
        s = []
        v = [gen.rpoint(rng) for _ in range(rng.randint(0, 7))]
        if len(v) > 1 and rng.random() < .3: v[-1] = list(v[0])
        t = [] if len(v) < 3 else [rng.sample(range(len(v)), 3) + [int(rng.random() < .3)] for _ in range(rng.randint(0, 5))]
        s.append("m_load A %d %s %d %s" % (rng.choice([-1, 255]), gen.pts(v), len(t), " ".join(" ".join(map(str, x)) for x in t)))
        s += ngen.surface(rng, "S")[0]
        if rng.random() < .3: s.append("n_closed_u S 1")
        if rng.random() < .3: s.append("n_closed_v S 1")
        s += ["o_add O S"] + (["n_points S %s 2 2" % gen.pts([gen.rpoint(rng) for _ in range(4)]), "o_add O S"] if rng.random() < .6 else [])
        for _ in range(rng.randint(1, 4)):
            x = gen.transform(rng)
            s.append(rng.choice(["m_transform A ", "n_transform S ", "o_transform O "]) + x)
        scripts.append(("shape-%d" % i, s))
    for i in range(ctx.n(25, 300)):          # closed surfaces and factory solids, points on each other
        s = [rng.choice(["o_factory O torus 2 3 1", "o_factory O sphere 1 2", "o_factory O cylinder 2 1 4", "o_factory O box 3 1 2 3"])]
        for _ in range(rng.randint(0, 2)): s += ["n_factory S " + rng.choice(["torus 2 3 1", "sphere 1 2", "disk 1 1", "triangle 9 0 0 0 1 0 0 0 1 0"]), "n_closed_%s S %d" % (rng.choice("uv"), rng.randrange(2)), "o_add O S"]
        for _ in range(rng.randint(1, 3)): s.append("o_transform O " + gen.transform(rng) if rng.random() < .6 or len(s) < 3 else "n_transform S " + gen.transform(rng))
        scripts.append(("closed-%d" % i, s))
    for i in range(ctx.n(10, 100)):          # many points
        nv, nt = rng.choice([40, 70, 140, 300]), rng.choice([3, 70, 260])
        s = ["x_apply_all %s %s" % (gen.transform(rng), repeated(rng, rng.choice([30, 70, 140, 300]))),
             "m_load A 9 %s %d %s" % (repeated(rng, nv), nt, " ".join("%d %d %d %d" % tuple(rng.sample(range(nv), 3) + [int(rng.random() < .3)]) for _ in range(nt))),
             "m_transform A " + gen.transform(rng)]
        s += ngen.surface(rng, "S", du=2, dv=2, nu=rng.choice([5, 9, 17, 66]), nv=rng.choice([8, 9, 12]))[0] + ["o_add O S", "n_transform S " + gen.transform(rng)]
        s += ngen.surface(rng, "S", du=1, dv=2, nu=rng.choice([2, 9, 12]), nv=rng.choice([9, 18]))[0] + ["o_add O S"]
        if rng.random() < .4: s += ["n_points S %s 2 2" % gen.pts([gen.rpoint(rng) for _ in range(4)])] + ["o_add O S"] * rng.choice([3, 9])
        scripts.append(("many-%d" % i, s + ["o_transform O " + gen.transform(rng)]))
    # right angles and full turns about each axis, in every representation
    for a in (90, 180, 270, 360, -90, 45):
        for u in ([1, 0, 0], [0, 1, 0], [0, 0, 1], [-1, 0, 0], [0.6, 0, 0.8]):
            s = []
            for k in ("aa", "aa_set", "aa_from", "mat_aa", "quat_aa"):
                s += ["x_apply %s 4 %s %s %s" % (k, gen.fh(a), gen.pt(u), p) for p in ("1 0 0", "0 1 0", "0 0 1", "3 -5 7")]
            scripts.append(("turn-%s-%s" % (a, "_".join(map(str, u))), s))
    ctx.validate(scripts)
