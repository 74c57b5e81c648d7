"""C26: a drawn triangle covers its projected area in its lit colour."""
from lib import gen, rgen
TECHNIQUE = "TLA+ specification of camera, coverage, depth and lights over exact rationals (TLC: an exact point-sampling renderer always stays within it); single triangles, lines, points and meshes placed all around the image borders drawn by the code, every pixel of every image checked by TLC"
CFG = """SPECIFICATION Spec
CONSTANTS Depth = %d Emit = TRUE
INVARIANTS Sound Nearest
ACTION_CONSTRAINT EmitAll
"""
KINDS = ["in", "near", "far", "huge", "int", "off", "thin", "cover", "corner", "right"]

def run(ctx):
    rng, scripts = ctx.rng, []
    h = gen.dedup_prefixes(ctx.model("RenderMC", CFG % 2, workers=6))
    for i, c in enumerate(gen.sample(rng, h, ctx.n(150, 150))): scripts.append(("mc-%d" % i, c))
    for i in range(ctx.n(450, 9000)):          # one triangle on an empty image, of every kind
        S = rgen.Scene(rng)
        S.tri(S.tri2(KINDS[i % len(KINDS)]), two=int(rng.random() < .2))
        if rng.random() < .5:
            S.clear()
            S.tri()
        scripts.append(("triangle-%d" % i, S.s))
    for i in range(ctx.n(150, 3000)):          # along and across one border
        S = rgen.Scene(rng, lights=0)
        side = i % 4
        S.s.append("r_amb %s 16777215 1" % S.name)
        for _ in range(2):
            p = []
            for _ in range(3):
                q = [rng.uniform(-8, S.w + 8), rng.uniform(-8, S.h + 8)]
                q[side % 2] = (0 if side < 2 else (S.w, S.h)[side % 2]) + rng.choice([-9, -3, -1, 0, 1, 3, 9, rng.uniform(-12, 12)])
                p.append(q)
            S.tri(p, color=0xfefefe, flat=True, two=1)
            S.clear()
        scripts.append(("border-%d" % i, S.s))
    for i in range(ctx.n(150, 3000)):          # lights
        S = rgen.Scene(rng, w=7, h=7, lights=0, cam=rng.choice([0, 1, 2]))
        for _ in range(rng.randint(1, 4)):
            S.light()
            S.clear()
            S.tri([[-40, -40], [60, -40], [0, 60]])
        scripts.append(("light-%d" % i, S.s))
    for i in range(ctx.n(60, 900)):            # dark and odd colours on a light image, from both sides
        S = rgen.Scene(rng, w=8, h=8, lights=rng.choice([0, 1]))
        S.bg(rng.choice([0xffffff, 0xc0d0e0]))
        S.clear()
        for _ in range(3):
            S.tri(S.tri2(rng.choice(["cover", "cover", "near"])), color=rng.choice([0, 0, 1, -1, -2, 0x010000, -16777216]), two=rng.choice([1, 1, 0]))
            S.clear()
        scripts.append(("dark-%d" % i, S.s))
    for i in range(ctx.n(200, 4000)):          # lines, points, polylines
        S = rgen.Scene(rng)
        for _ in range(rng.randint(1, 4)): rng.choice([S.line, S.line, S.line, S.pixel, S.poly])()
        scripts.append(("line-%d" % i, S.s))
    for i in range(ctx.n(80, 1500)):           # meshes with their edges
        S = rgen.Scene(rng)
        S.mesh(n=rng.choice([1, 1, 1, 2, 3]), edges=1)
        scripts.append(("mesh-%d" % i, S.s))
    ctx.validate(scripts)
