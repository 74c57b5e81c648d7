"""C04: removed triangles are invisible to every consumer."""
from lib import gen, rgen
TECHNIQUE = "TLA+ model of readers over slots that keep the corners of removed triangles (TLC: every history of additions, removals and reversals; readers of stale, counted or cut-off slots are refuted); every explored history with every consumer, and seeded larger ones, replayed on the code beside a twin that never had the removed triangles, both judged and compared by TLC"
CFG = """SPECIFICATION Spec
CONSTANTS Depth = %d Fault = "none" Emit = TRUE
INVARIANT Blind
VIEW View
ACTION_CONSTRAINT EmitAll
"""
FAULT = """SPECIFICATION Spec
CONSTANTS Depth = 3 Fault = "%s" Emit = FALSE
INVARIANT Blind
VIEW View
"""
BOX = ([[x, y, z] for x in (0, 2) for y in (0, 3) for z in (0, 1)],
       [[0, 1, 3], [0, 3, 2], [4, 6, 7], [4, 7, 5], [0, 4, 5], [0, 5, 1], [2, 3, 7], [2, 7, 6], [0, 2, 6], [0, 6, 4], [1, 5, 7], [1, 7, 3]])

def shape(rng):
    """vertices and triangles"""
    k = rng.randrange(5)
    if k == 0: return [list(p) for p in BOX[0]], [list(t) for t in BOX[1]]
    if k == 1: return [[0, 0, 0], [2, 0, 0], [0, 2, 0], [0, 0, 2]], [[0, 2, 1], [0, 1, 3], [1, 2, 3], [2, 0, 3]]
    if k == 2:
        w, h = rng.randint(2, 5), rng.randint(2, 4)
        return ([[i, j, rng.choice([0, 0, rng.randint(-2, 2) / 4])] for j in range(h) for i in range(w)],
                sum(([[i + w * j, i + 1 + w * j, i + 1 + w + w * j], [i + w * j, i + 1 + w + w * j, i + w + w * j]] for j in range(h - 1) for i in range(w - 1)), []))
    q = rng.choice([0, 1, 2])
    v = [gen.rpoint(rng, q) for _ in range(rng.randint(3, 10))]
    if k == 4: v += [list(rng.choice(v)) for _ in range(rng.randint(0, 4))]
    return v, [rng.sample(range(len(v)), 3) if rng.random() < .95 else [rng.randrange(len(v)) for _ in range(3)] for _ in range(rng.randint(1, 9))]

class Twins:
    """A with a history of removals; B as it is without it"""
    def __init__(self, rng, shp=None):
        self.rng, self.c = rng, rng.choice([-1, 0xff0000, rng.randrange(1 << 24)])
        self.v, ts = shp or shape(rng)
        self.t = [(t, False) for t in ts]
        self.s = []
        a = list(self.t)
        if rng.random() < .5:           # dead slots from the beginning
            for _ in range(rng.randint(1, 3)): a.insert(rng.randrange(len(a) + 1), ([rng.randrange(len(self.v)) for _ in range(3)], True))
        self.t = a
        self.s.append("m_load A %d %s %d %s" % (self.c, gen.pts(self.v), len(a), " ".join("%d %d %d %d" % (*t, d) for t, d in a)))
        for _ in range(rng.randint(1, 6)): self.edit()
        self.twin("B")
    def live(self): return [i for i, (t, d) in enumerate(self.t) if not d]
    def name(self, i): return "%d=%d.%d.%d" % (i, *self.t[i][0]) if not self.t[i][1] else "!%d" % i   # slots are numbered by the code
    def kill(self, i): self.t[i] = (self.t[i][0], True)
    def edit(self):
        rng, lv = self.rng, self.live()
        r = rng.random()
        if r < .55 and len(lv) > 1:
            for i in rng.sample(lv, min(len(lv) - 1, rng.choice([1, 1, 1, 2, 3]))):
                self.s.append("m_unlink A " + self.name(i)); self.kill(i)
        elif r < .65 and lv:
            i = rng.choice(lv); a, b, c = self.t[i][0]
            self.s.append("m_flip A " + self.name(i)); self.kill(i); self.t.append(([a, c, b], False))
        elif r < .8 and lv:
            i = rng.choice(lv); a, b, c = self.t[i][0]; w = len(self.v)
            p = [sum(self.v[k][j] for k in (a, b, c)) / 4 for j in range(3)]
            self.v.append(p); self.s.append("m_split_p A %s %s" % (self.name(i), gen.pt(p)))
            self.kill(i); self.t += [([a, b, w], False), ([b, c, w], False), ([c, a, w], False)]
        elif r < .9 and self.t:
            i = rng.randrange(len(self.t)); self.s.append("m_unlink A " + self.name(i)); self.kill(i)
        else:
            t = [rng.randrange(len(self.v)) for _ in range(3)]
            self.s.append("m_add_triangle A %d %d %d" % tuple(t)); self.t.append((t, False))
    def twin(self, n):
        self.s.append("m_strip %s A" % n)

ALL = ["measure", "copy", "append", "merge", "drop", "tess", "patches", "stl", "obj", "writer", "split", "bool", "move", "face", "solid"]
def consume(rng, w, k):
    """the same use of A and of its twin B"""
    s = w.s
    def both(f, out=("X", "Y")):
        f("A", out[0]); f("B", out[1])
    if k == "measure": s += ["m_measure A", "m_measure B", "m_twin A B"]
    elif k == "copy":
        both(lambda m, x: s.append("%s %s %s" % ("m_copy" if rng.random() < .5 else "m_assign", x, m))); s.append("m_twin X Y")
        if rng.random() < .5: s.extend(["m_copy X X", "m_assign Y Y", "m_twin X Y"])
    elif k == "append":
        s.append("m_load X 3 4 0 0 0 1 0 0 0 1 0 5 5 5 2 0 1 2 %d 1 2 3 %d" % (rng.randrange(2), rng.randrange(2)))
        s += ["m_copy Y X", "m_append X A", "m_append Y B", "m_twin X Y"]
        if rng.random() < .5: s += ["m_append A X", "m_append B Y", "m_twin A B"]
    elif k == "merge":
        t = rng.choice(["1e-6", "0.5", "1.25", "0.125", "3"])
        s += ["m_merge A " + t, "m_merge B " + t, "m_twin A B"] if rng.random() < .8 else ["m_merge_default A", "m_merge_default B", "m_twin A B"]
    elif k == "drop": s += ["m_remove_empty A 1e-6", "m_remove_empty B 1e-6", "m_twin A B", "m_measure A"]
    elif k == "tess":
        n = rng.randint(1, 4); both(lambda m, x: s.append("m_tessellate %s %s %d" % (x, m, n))); s.append("m_twin X Y")
    elif k == "patches" and w.live():
        s += ["o_from_mesh X A", "o_from_mesh Y B"]
        if len(w.live()) < 6: s += ["o_mesh P X 1 2", "o_mesh Q Y 1 2", "m_twin P Q"]
    elif k in ("stl", "obj"):
        q = k[0].upper()
        s += ["f_save %s %sa A" % (q, q), "f_save %s %sb B" % (q, q), "f_load %s %sa X" % (q, q), "f_load %s %sb Y" % (q, q), "m_twin X Y"]
        if rng.random() < .5: s += ["m_append X A", "m_append Y B", "m_twin X Y"]
    elif k == "writer":
        for x, m in (("Oa", "A"), ("Ob", "B")):
            s += ["ow_open W " + x, "ow_mesh W " + m] + (["ow_mesh W " + m] if rng.random() < .3 else []) + ["ow_close W"]
    elif k == "split":
        d = [i for i, (t, x) in enumerate(w.t) if x]
        if d: s += ["m_split_tri A !%d %s" % (rng.choice(d), " ".join(gen.pt(gen.rpoint(rng, 0)) for _ in range(3))), "m_twin A B"]
    elif k == "bool":
        if len(w.live()) > 14: return
        v = [[rng.uniform(-1, 3) for _ in range(3)] for _ in range(4)]
        s.append("m_load T -1 %s 2 0 1 2 %d 1 2 3 0" % (gen.pts(v), rng.randrange(2)))
        a, b = ("A T", "B T") if rng.random() < .5 else ("T A", "T B")
        s += ["m_boolean " + a, "m_copy X Aonly", "m_copy Y Bonly", "m_boolean " + b, "m_twin X Aonly", "m_twin Y Bonly"]
    elif k == "move":
        t = gen.transform(rng); s += ["m_transform A " + t, "m_transform B " + t, "m_twin A B"]
    elif k == "face":
        s += ["f_from_mesh F A", "f_from_mesh G B", "f_copy H F", "f_unlink F 0" if w.live() else "f_copy G F", "f_assign G F"]
    elif k == "solid":
        s += ["s_from_mesh J A", "f_new H", "f_add_triangle_p H 0 0 0 1 0 0 0 1 0", "f_add_triangle_p H 0 0 1 1 0 0 0 1 0", "f_unlink H %d" % rng.randrange(2), "s_add_face J H", "s_copy K J"]

def scene(rng):
    """the same picture of both"""
    c = rgen.Scene(rng, w=rng.randint(6, 18), h=rng.randint(6, 16))
    v, t = [], []
    for _ in range(rng.randint(1, 4)):
        i = len(v); v += c.lift(c.tri2()); t.append([i, i + 1, i + 2])
    pre = list(c.s)
    w = Twins.__new__(Twins)
    w.rng, w.c, w.v, w.s = rng, c.color(), v, []
    w.t = [(x, False) for x in t]
    w.s.append("m_load A %d %s %d %s" % (w.c, gen.pts(v), len(t), " ".join("%d %d %d 0" % tuple(x) for x in t)))
    for i in sorted(rng.sample(range(len(t)), rng.randint(1, len(t)))):
        w.s.append("m_unlink A " + w.name(i)); w.kill(i)
        if rng.random() < .3: w.s.append("m_add_triangle A %d %d %d" % tuple(t[i])); w.t.append((t[i], False))
    w.twin("B")
    e, col = rng.randrange(2), rng.choice([-1, -1, 0x00ff00])
    return pre + [x.replace(" R ", " S ", 1).replace(" R", " S", 1) if " R " not in x else x.replace(" R ", " S ", 1) for x in pre] + w.s + \
        ["r_mesh R A %d %d" % (e, col), "r_mesh S B %d %d" % (e, col), "r_twin R S"]

def run(ctx):
    rng, scripts = ctx.rng, []
    for f in ("stale", "stop", "short", "count"): ctx.refuted("DeadMC", FAULT % f)
    h = ctx.model("DeadMC", CFG % (4 if ctx.quick else 5))
    for i, c in enumerate(gen.sample(rng, h, ctx.n(900, 12000))): scripts.append(("mc-%d" % i, c))
    for i in range(ctx.n(30, 500)):
        for k in ALL:
            w = Twins(rng)
            for j in [k] if rng.random() < .5 else [rng.choice(["measure", "copy", "move"]), k]: consume(rng, w, j)
            scripts.append(("%s-%d" % (k, i), w.s))
    for i in range(ctx.n(60, 800)): scripts.append(("scene-%d" % i, scene(rng)))
    ctx.validate(scripts)
