"""C14: knot insertion and degree elevation do not move a curve."""
from lib import gen, ngen
from checks.C13 import MC
TECHNIQUE = "TLA+ model of refinement by polar forms, model-checked exhaustively (every insertion/elevation sequence keeps every point of the curve); the explored sequences and random ones are replayed on the code and every step is checked by TLC against the B-spline definition"

def walk(rng, d, k, steps, ins, ele):
    """refinement commands that stay within the supported structure"""
    s = []
    for _ in range(steps):
        if rng.random() < .6:
            u = rng.choice([0.5, 0.25, 0.125, rng.uniform(0.01, 0.99), rng.choice(k), ngen.near(rng, k) or 0.5])
            if u <= 0 or u >= 1 or ngen.mult(k, u) >= d or any(0 < abs(u - x) < 1e-9 for x in k): continue
            k = ngen.inserted(k, u)
            s.append(ins % gen.fh(u))
        else:
            s.append(ele)
            if d < 3:
                d += 1
                k = ngen.raised(k)
    return s, d, k

def run(ctx):
    rng, scripts = ctx.rng, []
    h = gen.dedup_prefixes(ctx.model("NurbsMC", MC % ctx.n(3, 4)))
    for i, c in enumerate(gen.sample(rng, h, ctx.n(300, 3000))): scripts.append(("mc-%d" % i, c))
    for i in range(ctx.n(160, 3000)):
        c, d, n, k = ngen.curve(rng, "A", d=rng.choice([1, 1, 2, 2, 3, 3, 4]))
        w, d2, k2 = walk(rng, d, k, rng.randint(1, 6), "c_insert A %s", "c_elevate A")
        s = c + w + ["c_eval A " + gen.ds(ngen.params(rng, d2, k2, 5))]
        if rng.random() < .3: s = c + ["c_copy B A"] + s[len(c):] + ["c_eval B " + gen.ds(ngen.params(rng, d, k, 3)), "c_insert B 0.4375", "c_elevate A"]
        scripts.append(("walk-%d" % i, s))
    for i in range(ctx.n(8, 80)):            # many control points
        d = rng.choice([1, 2, 2, 3, 4, 6])
        c, d, n, k = ngen.curve(rng, "A", d=d, n=rng.choice([12, 20, 40, 70]))
        w, d2, k2 = walk(rng, d, k, 1, "c_insert A %s", "c_elevate A")
        scripts.append(("many-%d" % i, c + w + ["c_eval A " + gen.ds(ngen.params(rng, d2, k2, 3))]))
    for i in range(ctx.n(30, 300)):          # unclamped curves are refined by knots only
        c, d, n, k = ngen.curve(rng, "A", clamped=False, d=rng.choice([1, 2, 3, 4]))
        s, lo, hi = list(c), k[d], k[len(k) - 1 - d]
        for _ in range(rng.randint(1, 3)):
            u = rng.uniform(lo, hi)
            if any(abs(u - x) < 1e-3 for x in k): continue
            s.append("c_insert A " + gen.fh(u)); k = ngen.inserted(k, u)
        scripts.append(("open-%d" % i, s))
    for i in range(ctx.n(20, 100)):          # circles and other factory curves
        s = ["c_circle A " + gen.fh(rng.choice([1, 2.5, 1e-3, 40]))]
        w, d, k = walk(rng, 2, [0, 0, 0, .25, .25, .5, .5, .75, .75, 1, 1, 1], rng.randint(1, 6), "c_insert A %s", "c_elevate A")
        scripts.append(("circle-%d" % i, s + w))
    ctx.validate(scripts)
