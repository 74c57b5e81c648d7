"""C17: NURBS factory shapes lie on the ideal surface for every size."""
from lib import gen, ngen
TECHNIQUE = "TLA+ characterisation of every NURBS factory shape (on the ideal shape, covering it, common tessellation closed, volume about the ideal one, outward); every recorded factory result over sizes and dirty targets checked by TLC in exact arithmetic"
from checks.C13 import MC

def size(rng): return rng.choice([1e-3, 0.01, 0.37, 1, 1, 2.5, 10, 123.456, 1000, rng.uniform(0.01, 20), 10 ** rng.uniform(-6, 6), 10 ** rng.uniform(-10, -5)])
def ratio(rng): return 10 ** rng.uniform(-3, 3)
def solid(rng, k, spindle=False):
    s = size(rng)
    if spindle and k == "torus" and rng.random() < .25: return [s, s * rng.choice([1, 1.5, 2, 10])]
    if k == "box": return [s * rng.choice([1, 1, 0.5, 3, rng.uniform(.1, 5), ratio(rng)]) for _ in range(3)]
    if k == "cylinder": return [s, s * rng.choice([1, .3, 2, 5, ratio(rng)])]
    if k == "torus": return [s, s * rng.choice([0.5, 0.1, 0.9, 0.25, 10 ** rng.uniform(-3, -0.01)])]
    return [s]
SOLIDS = ["box", "cylinder", "sphere", "torus"]

def surf(rng, m, k):
    if k in ("triangle", "quad"):
        n = 3 if k == "triangle" else 4
        kd = rng.choice([0, 1, 2, 3])
        a = [c for _ in range(n) for c in gen.rpoint(rng, kd)]
        if k == "triangle" and kd == 0: a = [0, 0, 0, 2, 0, 1, 0, 3, 0]
        if rng.random() < .3: a = [c * 10 ** rng.choice([-8, -6, -3, 4]) for c in a] if rng.random() < .5 else [c * (1e-7 if i % 3 == rng.choice([0, 1, 2]) else 1) for i, c in enumerate(a)]
    else: a = solid(rng, "torus" if k == "torus" else "sphere", True)
    return "n_factory %s %s %s" % (m, k, gen.ds(a))
SURFS = ["triangle", "quad", "disk", "sphere", "torus"]

def run(ctx):
    rng, scripts = ctx.rng, []
    ctx.model("NurbsMC", MC % 2)
    for i in range(ctx.n(60, 600)):
        s = [] if rng.random() < .6 else ngen.surface(rng, "A")[0] + rng.choice([[], ["n_closed_v A 1", "n_closed_u A 1"]])
        s += [surf(rng, "A", SURFS[i % 5])]
        if rng.random() < .4: s.append(surf(rng, "A", rng.choice(SURFS)))
        scripts.append(("surface-%d" % i, s))
    for i in range(ctx.n(40, 400)):
        s = [] if rng.random() < .5 else ["n_new S", "o_add A S"]
        s += ["o_factory A %s %s" % (k, gen.ds(solid(rng, k, True))) for k in (SOLIDS[i % 4], rng.choice(SOLIDS))]
        scripts.append(("solid-%d" % i, s))
    for i in range(ctx.n(24, 80)):           # the common tessellation
        k = SOLIDS[i % 4]
        n = 1 + (i // 4) % (2 if k == "torus" else 3)
        scripts.append(("shape-%d" % i, ["o_shape M O %s %s %d" % (k, gen.ds(solid(rng, k)), n)]))
    for i, e in enumerate([-4, -3, -2, -1, 0, 1, 2, 3, 4] * ctx.n(1, 5)):       # flat, slender, tiny and huge ones
        s, r = size(rng), 10 ** (e + rng.uniform(-.5, .5))
        b = [s, s * r, s * rng.choice([1, r])]; rng.shuffle(b)
        a = [("cylinder", [s, s * r]), ("box", b), ("sphere", [10 ** (2 * e) * rng.uniform(.3, 3)]), ("torus", [s, s * 10 ** -(abs(e) + rng.uniform(.02, .5))])]
        scripts.append(("ratio-%d" % i, ["o_shape M O %s %s 1" % (k, gen.ds(x)) for k, x in a]))
    for i in range(ctx.n(40, 400)):          # curves
        d = rng.randint(1, 4); n = d + rng.randint(1, 5)
        s = [] if rng.random() < .5 else ngen.curve(rng, "A")[0]
        s += ["c_circle A " + gen.fh(size(rng)), "c_from_points A %s %d" % (gen.pts(ngen.points(rng, n)), d),
              "c_eval A " + gen.ds([0, 1, rng.random()]), "c_circle A " + gen.fh(size(rng)), "c_closed_default A"]
        scripts.append(("curve-%d" % i, s))
    ctx.validate(scripts)
