"""C28: image operations are pixel-wise exact."""
from lib import gen
TECHNIQUE = "TLA+ pixel-wise definition of every image operation and fractal (TLC, every short history over small shapes); explored and seeded histories replayed on the code, every resulting pixel checked by TLC, escape times decided in exact arithmetic with a tracked rounding bound"
CFG = """SPECIFICATION Spec
CONSTANTS Depth = %d Emit = TRUE
INVARIANTS Sound Kept Addresses
PROPERTIES Definitions
ACTION_CONSTRAINT EmitAll
"""
def load(rng, m, w, h, p):
    k = rng.randrange(4)
    n = w * h * p
    v = [rng.randrange(256) for _ in range(n)] if k < 2 else [rng.choice([0, 1, 127, 128, 254, 255]) for _ in range(n)] if k == 2 else [(7 * i) % 256 for i in range(n)]
    return "i_load %s %d %d %d %s" % (m, w, h, p, gen.iv(v or [0]))

def shape(rng): return rng.choice([(1, 260), (300, 1), (65, 17), (19, 70)]) if rng.random() < .03 else ( rng.choice([1, 1, 2, 3, 4, 5, 7, 8, 12, 16]), rng.choice([1, 1, 2, 3, 5, 6, 9, 13]))

def run(ctx):
    rng, scripts = ctx.rng, []
    h = gen.dedup_prefixes(ctx.model("ImageMC", CFG % (3 if ctx.quick else 4)))
    for i, c in enumerate(gen.sample(rng, h, ctx.n(2500, 30000))): scripts.append(("mc-%d" % i, c))
    for i in range(ctx.n(250, 4000)):
        s, shp = [], {}
        for _ in range(rng.randint(4, 14)):
            m = rng.choice("AB")
            if m not in shp or rng.random() < .08:
                w, hh = shape(rng); p = rng.choice([1, 3, 3, 4, 2, 5])
                shp[m] = (w, hh, p)
                s.append(load(rng, m, w, hh, p)); continue
            w, hh, p = shp[m]
            k = rng.randrange(12)
            xyk = "%d %d %d" % (rng.choice([0, w - 1, rng.randrange(w)]), rng.choice([0, hh - 1, rng.randrange(hh)]), rng.randrange(p))
            if k <= 1: s.append("%s %s %s %d" % (rng.choice(["i_set", "i_set_p"]), m, xyk, rng.randrange(256)))
            elif k <= 3: s.append("i_get %s %s" % (m, xyk))
            elif k == 4:
                w, hh = shape(rng); p = rng.choice([1, 2, 3, 4])
                if rng.random() < .3: w, hh, p = shp[m]
                s.append("i_resize %s %d %d %d" % (m, w, hh, p)); shp[m] = (w, hh, p)
            elif k == 5 and p >= 3:
                o = rng.choice("ABC")
                if o != m: s.append("i_bw %s %s" % (o, m)); shp[o] = (w, hh, 1)
            elif k <= 7: s.append("i_scale %s %s" % (m, gen.fh(rng.choice([(rng.randrange(255) + rng.choice([.5001, .4999, .50001, .49999])) / rng.randint(1, 255), 0, 0.5, 1, 2, 0.999, 1.01, 255, -1, 1e-3, 1 / 3, 1e9, rng.uniform(0, 3)]))))
            elif k == 8: s.append("i_to_double %s %s" % (m, gen.ds([1.5] * rng.choice([0, 1, 5, 300]))))
            elif k == 9:
                o = rng.choice("ABC"); s.append("%s %s %s" % (rng.choice(["i_copy", "i_assign"]), o, m)); shp[o] = shp[m]
            elif k == 10:
                w, hh = shape(rng); s.append("i_new %s %d %d %d" % (m, w, hh, p)); shp[m] = (w, hh, p)
            else: s.append("i_default D")
        scripts.append(("image-%d" % i, s))
    for i in range(ctx.n(16, 160)):            # every value, close to the middle between two integers
        r, s = rng.randrange(256), ["i_load A 16 16 1 " + gen.iv(list(range(256)))]
        for f in [(k + .5 + e) / v for k, v, e in [(rng.randrange(254), rng.randint(1, 255), rng.choice([1e-3, -1e-3, 1e-5, -1e-5, 1e-7, -1e-7])) for _ in range(3)]]: s += ["i_scale A " + gen.fh(f), "i_load A 16 16 1 " + gen.iv(list(range(256)))]
        scripts.append(("middle-%d" % i, s))
    for i in range(ctx.n(8, 40)):              # every sum of three values
        v = [x for k in range(766) for x in (lambda a, b: [a, b, k - a - b])(*(lambda a: (a, rng.randint(max(0, k - a - 255), min(255, k - a))))(rng.randint(max(0, k - 510), min(255, k)))) + ([rng.randrange(256)] if i % 2 else [])]
        scripts.append(("mean-%d" % i, ["i_load A 383 2 %d %s" % (3 + i % 2, gen.iv(v)), "i_bw B A"]))
    for i in range(ctx.n(90, 700)):
        w, hh = rng.choice([(1, 1), (2, 1), (1, 5), (4, 4), (9, 6), (16, 3), (5, 17), (20, 12), (rng.randint(1, 24), rng.randint(1, 24))])
        s = [load(rng, "A", *(list(shape(rng)) + [rng.choice([1, 3, 4])]))] if rng.random() < .4 else []
        if rng.random() < .35: s.append("i_sierpinski A %d %d" % (rng.choice([w, 33, 65]), rng.choice([hh, 34])))
        else:
            n = rng.choice([0, 1, 2, 3, 5, 8, 12, 20, 60]) if ctx.quick else rng.choice([0, 1, 2, 3, 5, 8, 12, 20, 60, 255])
            s.append("i_mandelbrot A %d %d %d" % (w, hh, n))
        scripts.append(("fractal-%d" % i, s))
    for i in range(ctx.n(6, 40)):              # many columns or rows, many iterations
        w, hh = [(700, 3), (3, 530), (290, 260)][i % 3]
        scripts.append(("large-%d" % i, ["i_sierpinski A %d %d" % (w, hh)] if i % 2 else ["i_mandelbrot A %d %d %d" % (min(w, 40), min(hh, 4), rng.choice([60, 150, 255]))]))
    for i in range(ctx.n(3, 20)):
        w, hh, p = [(260, 90, 3), (70, 400, 4), (300, 300, 1)][i % 3]
        scripts.append(("pixels-%d" % i, [load(rng, "A", w, hh, p), "i_scale A " + gen.fh(rng.choice([0.7, 1.6, 300]))] + (["i_bw B A"] if p >= 3 else ["i_copy B A"])))
    ctx.validate(scripts)
