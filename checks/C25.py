"""C25: rendering shows the nearest front-facing surface at every pixel."""
from lib import gen, rgen
TECHNIQUE = "TLA+ depth-buffer specification whose pixels carry the possible colours and depths (TLC: every drawing sequence of a scene agrees with an exact renderer and shows the nearest surface in any order); explored and seeded scenes drawn in many orders by the code, every pixel of every image checked by TLC, buffer bounds by exact-size heap blocks"
CFG = """SPECIFICATION Spec
CONSTANTS Depth = %d Emit = TRUE
INVARIANTS Sound Nearest
ACTION_CONSTRAINT EmitAll
"""
def run(ctx):
    rng, scripts = ctx.rng, []
    h = gen.dedup_prefixes(ctx.model("RenderMC", CFG % (3 if ctx.quick else 4), workers=6))
    for i, c in enumerate(gen.sample(rng, h, ctx.n(600, 8000))): scripts.append(("mc-%d" % i, c))
    for i in range(ctx.n(200, 4000)):          # layers in every order
        S = rgen.Scene(rng, w=rng.randint(8, 18), h=rng.randint(8, 16), cam=rng.choice([0, 1, 2]), lights=rng.choice([1, 2]))
        n = rng.randint(2, 4)
        z = [10 * (1 + .5 * k) for k in range(n)]
        part = [[] for _ in range(n)]
        for k in range(n):
            m = len(S.s)
            kind = rng.choice(["near", "far", "cover", "corner", "far"])
            S.tri(S.tri2(kind), z=z[k], flat=rng.random() < .7)
            part[k] = S.s[m:]
            del S.s[m:]
        for rep in range(2):
            rng.shuffle(part)
            S.s += sum(part, [])
            if rng.random() < .3: S.line()
            if rep == 0: S.clear()
        scripts.append(("layers-%d" % i, S.s))
    for i in range(ctx.n(150, 3000)):          # surfaces through each other
        S = rgen.Scene(rng, lights=1)
        z = S.depth()
        for _ in range(rng.randint(2, 4)): S.tri(S.tri2(rng.choice(["far", "cover", "near"])), z=z, flat=False)
        scripts.append(("crossing-%d" % i, S.s))
    for i in range(ctx.n(150, 3000)):          # everything, several clears
        S = rgen.Scene(rng)
        for _ in range(rng.randint(3, 8)):
            k = rng.random()
            if k < .1: S.clear()
            elif k < .2: S.bg(S.color())
            elif k < .25: S.camera()
            elif k < .3: S.light()
            elif k < .4: S.behind()
            else: rng.choice([S.tri, S.tri, S.line, S.pixel, S.poly, S.mesh])()
        scripts.append(("history-%d" % i, S.s))
    for i in range(ctx.n(100, 2000)):          # meshes: order of drawing, removed triangles, drawn twice
        S = rgen.Scene(rng, lights=rng.choice([1, 2]))
        ms = [S.mesh(n=rng.randint(1, 4)) for _ in range(2)]
        S.clear()
        rng.shuffle(ms)
        for m in ms: S.draw(m)
        if rng.random() < .5:
            S.s.append("m_unlink %s 0" % ms[0])
            S.clear()
            S.draw(ms[0])
        scripts.append(("mesh-%d" % i, S.s))
    for i in range(ctx.n(60, 1000)):           # nothing visible: off screen on one side, behind, seen from the back
        S = rgen.Scene(rng, lights=1)
        for _ in range(4):
            k = rng.randrange(3)
            if k == 0: S.tri(S.tri2("off"))
            elif k == 1: S.behind()
            else:
                v = S.lift(S.tri2("near"))
                S.s.append("r_tri %s %s %d 0" % (S.name, " ".join(gen.pt(q) for q in (v[0], v[2], v[1])), S.color()))
        scripts.append(("hidden-%d" % i, S.s))
    for i in range(ctx.n(60, 1000)):           # two renderers at once
        A = rgen.Scene(rng, name="A", lights=1)
        B = rgen.Scene(rng, name="B", lights=1)
        s, ops = A.s + B.s, []
        A.s, B.s = [], []
        for _ in range(6):
            X = rng.choice([A, B])
            n = len(X.s)
            rng.choice([X.tri, X.tri, X.line, X.clear, X.pixel])()
            s += X.s[n:]
        scripts.append(("two-%d" % i, s))
    ctx.validate(scripts)
