"""Scenes for the renderer: points are placed on the screen and taken back to the world."""
import math
from lib import gen
fh, pt = gen.fh, gen.pt

def euler(p, a):
    cy, sy = math.cos(math.radians(a[0])), math.sin(math.radians(a[0]))
    cp, sp = math.cos(math.radians(a[1])), math.sin(math.radians(a[1]))
    cr, sr = math.cos(math.radians(a[2])), math.sin(math.radians(a[2]))
    x1, z1 = p[0] * cy + p[2] * sy, p[2] * cy - p[0] * sy
    y2, z2 = z1 * sp - p[1] * cp, z1 * cp + p[1] * sp
    return [x1 * cr + y2 * sr, y2 * cr - x1 * sr, z2]

class Scene:
    """one renderer R with a camera; emits commands into .s"""
    def __init__(self, rng, w=None, h=None, name="R", lights=None, cam=None):
        self.rng, self.name, self.s = rng, name, []
        self.w = w or rng.randint(6, 26)
        self.h = h or rng.randint(6, 22)
        self.flat_ok = rng.random() < .3          # flat triangles or directional lights
        self.s.append("r_new %s %d %d" % (name, self.w, self.h))
        if rng.random() < .5:
            self.bg(rng.choice([0, 0xffffff, 0x102030, rng.randrange(1 << 24), -1]))
            if rng.random() < .8: self.clear()
        self.camera(cam)
        for _ in range(rng.choice([0, 1, 1, 2, 3]) if lights is None else lights): self.light()
        self.n = 0
    def bg(self, c): self.s.append("r_bg %s %d" % (self.name, c))
    def clear(self): self.s.append("r_clear " + self.name)
    def camera(self, kind=None):
        r = self.rng
        k = kind if kind is not None else r.randrange(4)
        if k == 0: o, a, ah = [0, 0, 0], [0, 0, 0], 0
        elif k == 1: o, a, ah = [r.randint(-5, 5) for _ in range(3)], [r.choice([0, 90, 180, -90, 45]) for _ in range(3)], r.choice([0, 10, 100])
        else: o, a, ah = [r.uniform(-50, 50) for _ in range(3)], [r.uniform(-180, 180) for _ in range(3)], r.choice([0, r.uniform(0, 300), r.uniform(-10, 10)])
        self.o, self.a, self.ahead, self.zoom = o, a, ah, r.choice([50, 100, 400, r.uniform(5, 1000), r.uniform(5, 1000), r.choice([.01, .5, 1, 3, 8, 3000])])
        self.m = [euler(e, a) for e in ([1, 0, 0], [0, 1, 0], [0, 0, 1])]
        self.s.append("r_cam %s %s %s %s %s %s %s" % (self.name, pt(o), fh(ah), fh(a[0]), fh(a[1]), fh(a[2]), fh(self.zoom)))
    def light(self):
        r = self.rng
        c = r.choice([0xffffff, 0x808080, 0xff0000, 0x00ff80, r.randrange(1 << 24)])
        f = r.choice([1, 0.5, 2, 0.25, r.uniform(0, 3)])
        if r.random() < .3:                        # sums next to the largest value
            c, b = r.choice([0xffffff, 0x808080, 0xff8040]), r.choice([255, 254, 128, 64])
            f = 256 * (r.choice([253, 254, 255, 256, 257, 259]) + r.choice([0, 0, .4, -.4])) / (b * (c & 255 or 64))
        if self.flat_ok or r.random() < .5: self.s.append("r_amb %s %d %s" % (self.name, c, fh(f)))
        else: self.s.append("r_dif %s %d %s %s" % (self.name, c, fh(f), pt(gen.unit(r))))
    def world(self, X, Y, z):
        """the world point shown at (X, Y) at depth z"""
        l = [(X - self.w // 2) * z / self.zoom, (Y - self.h // 2) * z / self.zoom, z - self.ahead]
        return [self.o[i] + sum(self.m[i][k] * l[k] for k in range(3)) for i in range(3)]
    def color(self): return self.rng.choice([0, 0, -2, -16777216, self.rng.randint(-2**31, 2**31 - 1)]) if self.rng.random() < .15 else self.rng.choice([0xff0000, 0x00ff00, 0x0000ff, 0xffffff, -1, self.rng.randrange(1 << 24), self.rng.randrange(1 << 24)])
    def depth(self): return self.rng.choice([10, 20, 40, self.rng.uniform(5, 200)])
    def screen_point(self, kind):
        r, w, h = self.rng, self.w, self.h
        if kind == "in": return [r.uniform(0, w), r.uniform(0, h)]
        if kind == "int": return [r.randint(-2, w + 2), r.randint(-2, h + 2)]
        if kind == "near": return [r.uniform(-w * .5, w * 1.5), r.uniform(-h * .5, h * 1.5)]
        if kind == "far": return [r.uniform(-3 * w, 4 * w), r.uniform(-3 * h, 4 * h)]
        if kind == "huge": return [r.uniform(-1500, 1500), r.uniform(-1500, 1500)]
        # off screen on one side
        if kind == "off":
            s = r.randrange(4)
            return None, s
    def tri2(self, kind=None):
        """three screen positions, front facing unless kind says otherwise"""
        r, w, h = self.rng, self.w, self.h
        k = kind or r.choice(["in", "in", "near", "near", "far", "huge", "int", "off", "thin", "cover", "corner", "right"])
        if k == "off":
            s = r.randrange(4)
            p = []
            for _ in range(3):
                u = r.uniform(.1, 40)
                p.append([[-u, r.uniform(-h, 2 * h)], [w + u, r.uniform(-h, 2 * h)], [r.uniform(-w, 2 * w), -u], [r.uniform(-w, 2 * w), h + u]][s])
        elif k == "thin":
            a, b = self.screen_point("near"), self.screen_point("near")
            t = r.random()
            # the normal of an exactly flat triangle is not defined, so only without directional lights
            d = r.choice([0 if self.flat_ok else .3, .3, 1, 2.5])
            p = [a, b, [a[0] + t * (b[0] - a[0]) + r.uniform(.2, 1) * r.choice([d, -d]), a[1] + t * (b[1] - a[1]) + r.uniform(.2, 1) * r.choice([d, -d])]]
        elif k == "cover": p = [[-3 * w, -3 * h], [6 * w, -2 * h], [r.uniform(0, w), 7 * h]]
        elif k == "corner":
            c = [r.choice([0, w]), r.choice([0, h])]
            p = [[c[0] + r.uniform(-w, w), c[1] + r.uniform(-h, h)] for _ in range(3)]
        elif k == "right":                      # horizontal and vertical edges
            x0, x1 = sorted([r.randint(-4, w + 4), r.randint(-4, w + 4)])
            y0, y1 = sorted([r.randint(-4, h + 4), r.randint(-4, h + 4)])
            q = [[x0, y0], [x1, y0], [x1, y1], [x0, y1]]
            del q[r.randrange(4)]
            p = q
        else: p = [self.screen_point(k) for _ in range(3)]
        c = (p[1][0] - p[0][0]) * (p[2][1] - p[0][1]) - (p[1][1] - p[0][1]) * (p[2][0] - p[0][0])
        # the normal of a flat triangle is not defined, so none under directional lights
        if abs(c) < .05 * max(math.dist(p[0], p[1]), math.dist(p[1], p[2]), math.dist(p[2], p[0])) + 1e-3 and not self.flat_ok:
            return self.tri2("in")
        if c < 0: p[1], p[2] = p[2], p[1]
        i = r.randrange(3)
        return p[i:] + p[:i]
    def lift(self, p, z=None, flat=None):
        """screen positions to world points"""
        r = self.rng
        z = z if z is not None else self.depth()
        flat = flat if flat is not None else r.random() < .4
        return [self.world(q[0], q[1], z if flat else z * r.uniform(.6, 1.6)) for q in p]
    def tri(self, p=None, z=None, flat=None, two=None, color=None):
        r = self.rng
        v = self.lift(p or self.tri2(), z, flat)
        if r.random() < .2: v[1], v[2] = v[2], v[1]
        two = int(r.random() < .3) if two is None else two
        self.s.append("r_tri %s %s %d %d" % (self.name, " ".join(pt(q) for q in v), self.color() if color is None else color, two))
    def behind(self):
        v = [self.world(*self.screen_point("near"), -self.depth()) for _ in range(3)]
        self.s.append("r_tri %s %s %d %d" % (self.name, " ".join(pt(q) for q in v), self.color(), self.rng.randrange(2)))
    def line(self, kind=None):
        r = self.rng
        k = kind or r.choice(["in", "near", "far", "int", "huge", "through"])
        if k == "through":                         # long, through the middle of the image
            c, a, u, v = [r.uniform(.3, .7) * self.w, r.uniform(.3, .7) * self.h], r.choice([r.uniform(0, 7), r.uniform(0, 7), 0, math.pi / 2, math.pi / 4]), r.uniform(5, 3000), r.uniform(-3000, -5)
            p = [[c[0] + math.cos(a) * w, c[1] + math.sin(a) * w] for w in (u, v)]
        else: p = [self.screen_point(k), self.screen_point(k)]
        if r.random() < .2: p[1][r.randrange(2)] = p[0][r.randrange(2)]
        z = self.depth()
        if r.random() < .1: z = -z
        v = self.lift(p, z)
        self.s.append("r_line %s %s %s %d" % (self.name, pt(v[0]), pt(v[1]), self.color()))
    def pixel(self):
        p = self.screen_point(self.rng.choice(["in", "near", "int"]))
        z = self.depth() * self.rng.choice([1, 1, 1, -1])
        self.s.append("r_pixel %s %s %d" % (self.name, pt(self.world(p[0], p[1], z)), self.color()))
    def poly(self):
        r = self.rng
        n = r.choice([0, 1, 2, 3, 4, 5, 9, 17, 20]) if r.random() < .5 else r.randint(2, 6)
        v = self.lift([self.screen_point(r.choice(["in", "near"])) for _ in range(n)]) if n else []
        self.s.append("r_poly %s %s %d" % (self.name, gen.pts(v), self.color()))
    def mesh(self, n=None, edges=None, color=None):
        """a mesh of a few triangles, some removed"""
        r = self.rng
        self.n += 1
        m = "M%d" % self.n
        n = r.randint(0, 4) if n is None else n
        v, t = [], []
        for _ in range(n):
            i = len(v)
            v += self.lift(self.tri2())
            t.append([i, i + 1, i + 2] if r.random() < .8 else [i, i + 2, i + 1])
            if len(v) > 3 and r.random() < .3: t[-1][0] = r.randrange(i)
        dead = [int(r.random() < .25) for _ in t]
        self.s.append("m_load %s %d %s %d %s" % (m, self.color(), gen.pts(v), len(t), " ".join("%d %d %d %d" % (*x, d) for x, d in zip(t, dead))))
        self.draw(m, edges, color)
        return m
    def draw(self, m, edges=None, color=None):
        r = self.rng
        self.s.append("r_mesh %s %s %d %d" % (self.name, m, int(r.random() < .3) if edges is None else edges, r.choice([-1, -1, self.color()]) if color is None else color))
