"""C22: BMP files reproduce the image."""
from lib import gen, fgen
TECHNIQUE = "TLA+ specification of bitmap files (TLC: encoding and decoding are inverse for every small size and plane count, every history of edits, saves and loads over two images and two files); explored and seeded histories replayed on the code, the bytes of every file judged by TLC"
CFG = """SPECIFICATION Spec
CONSTANTS Depth = %d Emit = TRUE
INVARIANT Stored
ACTION_CONSTRAINT EmitAll
"""
def content(rng, n):
    k = rng.randrange(4)
    if k == 0: return [rng.randrange(256) for _ in range(n)]
    if k == 1: return [rng.choice([0, 255]) for _ in range(n)]
    if k == 2: return [(7 * i + 3) % 256 for i in range(n)]
    return [i % 251 for i in range(n)]
def image(rng, name, w, h, p): return "i_load %s %d %d %d %s" % (name, w, h, p, gen.iv(content(rng, w * h * p)))

def run(ctx):
    rng, scripts = ctx.rng, []
    h = gen.dedup_prefixes(ctx.model("BmpMC", CFG % ctx.n(4, 5), workers=8))
    for i, c in enumerate(gen.sample(rng, h, ctx.n(500, 6000))): scripts.append(("mc-%d" % i, c))
    i = 0
    for p in (1, 3, 4):                        # every small size, into used and fresh targets
        for w in range(1, ctx.n(10, 20)):
            for hh in ([1, 2, 3, 5] if ctx.quick else range(1, 10)):
                if ctx.quick and hh > 2 and (w + hh + p) % 2: continue
                s = [image(rng, "A", w, hh, p)]
                if rng.random() < .5: s.append(fgen.image(rng, "B"))
                s += ["f_save B B1 A", "f_load B B1 B", "f_save B B2 B", "f_load B B2 A"]
                scripts.append(("size-%d" % i, s)); i += 1
    for i in range(ctx.n(160, 2500)):          # files written by others
        w, hh = rng.choice([1, 2, 3, 4, 5, 6, 7, 9]), rng.choice([1, 2, 3, 4, 5])
        bpp = rng.choice([8, 24, 24, 32])
        k = dict(topdown=rng.random() < .4, extra=rng.choice([0, 0, 2, 7, 40]))
        k["hdr"] = rng.choice([40, 40, 108, 124])
        if bpp == 32 and rng.random() < .5: k["comp"] = 3
        if bpp == 8: k["clr"] = rng.choice([0, 256])
        s = [fgen.image(rng, "A")] if rng.random() < .5 else []
        f = fgen.bmp(rng, w, hh, bpp, **k)
        s += ["f_put B1 " + fgen.b(f), "f_load B B1 A", "f_save B B2 A", "f_load B B2 C"]
        if rng.random() < .3: s += ["f_put B3 " + fgen.b(fgen.bmp(rng, rng.randint(1, 6), rng.randint(1, 4), rng.choice([8, 24, 32]), topdown=rng.random() < .5)), "f_load B B3 A", "f_load B B1 C", "f_save B B1 A"]
        scripts.append(("others-%d" % i, s))
    for i in range(ctx.n(40, 400)):            # what cannot be stored is refused; larger images
        w, hh, p = rng.choice([(0, 0, 0), (0, 3, 1), (3, 0, 3), (2, 2, 2), (3, 1, 5), (2, 2, 6), (17, 11, 3), (33, 7, 1), (12, 13, 4), (31, 9, 3), (257, 1, 3), (1, 300, 3), (300, 2, 1), (2, 259, 4)])
        s = [image(rng, "A", w, hh, p), image(rng, "B", 2, 2, 3), "f_save B B1 B", "f_save B B1 A", "f_load B B1 B", "f_save B B2 A", "f_load B B2 B", "i_set B 0 0 0 9" if w * hh * p else "i_copy B A", "f_load B B2 A"]
        if w * hh == 0 or p not in (1, 3, 4): s = [c for c in s if not c.startswith("i_set")]
        scripts.append(("odd-%d" % i, s))
    for i in range(ctx.n(6, 36)):              # more bytes than 16 bits can count
        w, hh, p = [(163, 141, 3), (1, 16500, 4), (300, 229, 1), (5501, 4, 3), (4099, 5, 1), (131, 130, 4)][i % 6]
        s = [image(rng, "A", w, hh, p), "f_save B B1 A", "f_load B B1 B"]
        if i % 2: s = ["f_put B1 " + fgen.b(fgen.bmp(rng, w, hh, 8 * p, topdown=rng.random() < .5)), "f_load B B1 B"]
        scripts.append(("big-%d" % i, s))
    ctx.validate(scripts)
