"""C11: geometric queries answer what Euclidean geometry says."""
import math
from lib import gen
TECHNIQUE = "TLA+ definitions of every query in exact rational arithmetic (order independence and consistency checked by TLC over an integer grid); all explored and seeded configurations asked of the code and every answer checked by TLC against the definitions"
CFG = """SPECIFICATION Spec
CONSTANTS Kind = "%s" R = %d Emit = TRUE
INVARIANTS Order EmitState
"""
def add(a, b): return [x + y for x, y in zip(a, b)]
def mul(k, a): return [k * x for x in a]
def sub(a, b): return [x - y for x, y in zip(a, b)]
def cross(a, b): return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]
def norm(a): return math.sqrt(sum(x * x for x in a))

def place(rng):
    """a frame: scale and offset"""
    s = rng.choice([1, 1, 1, 10, 1e-3, 1e-6, 1e3, rng.uniform(.1, 5), 10 ** rng.uniform(-10, 8)])
    o = mul(s * rng.choice([0, 0, 1, 100]), [rng.uniform(-1, 1) for _ in range(3)])
    return s, o
def fat(rng, s, o):
    while True:
        t = [[rng.uniform(-1, 1) for _ in range(3)] if rng.random() < .7 else [rng.randint(-2, 2) for _ in range(3)] for _ in range(3)]
        if norm(cross(sub(t[1], t[0]), sub(t[2], t[0]))) > .05: break
    return [add(mul(s, p), o) for p in t]
def at(t, l): return add(t[0], add(mul(l[0], sub(t[1], t[0])), mul(l[1], sub(t[2], t[0]))))
def perm(rng, t):
    t = list(t); rng.shuffle(t); return t
def T(t): return gen.pts(t)

def query(rng):
    s, o = place(rng)
    t = fat(rng, s, o)
    n = cross(sub(t[1], t[0]), sub(t[2], t[0]))
    n = mul(s / norm(n), n)
    k = rng.randrange(10)
    bary = lambda: rng.choice([[.3, .3], [.9, .05], [.05, .9], [.05, .05], [.5, .5 - 1e-3], [1e-3, .4], [.4, 1e-3], [1.2, .1], [-.2, .5], [.6, .6], [.5, -.3], [-1, -1], [3, -1], [-1, 3], [-2, 1], [1, 2], [0, 1.5], [1.5, 0], [0, -.5], [1.5, -.5],
                               [rng.uniform(-1, 2), rng.uniform(-1, 2)]])
    if k <= 2:
        p = at(t, bary())
        q = perm(rng, t)
        return ["g_tri_contains %s %s" % (T(x), gen.pt(p)) for x in (q, perm(rng, q))]
    if k == 3: return ["g_tri %s" % T(t), "g_segment %s" % T(t[:2]), "g_plane %s %s %d" % (T(perm(rng, t)), gen.pt(add(o, mul(s * 3, [rng.uniform(-1, 1) for _ in range(3)]))), rng.randrange(4)),
                       "g_plane %s %s %d" % (T(t), gen.pt(rng.choice([t[0], [0, 0, 0], [1, 2, 3]])), rng.randrange(4))]
    if k in (4, 5):
        c = at(t, bary())
        d = add(n, mul(s * rng.uniform(0, 2), [rng.uniform(-1, 1) for _ in range(3)]))
        a, b = rng.choice([(1, 1), (.1, 2), (1e-3, 1), (1e-3, 1e-3), (1e-5, 1e-4), (-.1, 1), (-1, 2), (1, -.2)])
        sg = [add(c, mul(a, d)), add(c, mul(-b, d))]
        return [rng.choice(["g_tri_seg", "g_plane_seg"]) + " %s %s" % (T(x), T(y)) for x, y in ((t, sg), (perm(rng, t), sg[::-1]))]
    if k == 6:
        u = fat(rng, s, rng.choice([o, add(o, mul(s, [rng.uniform(-1.5, 1.5) for _ in range(3)]))]))
        return ["g_tri_tri %s %s" % (T(x), T(y)) for x, y in ((t, u), (perm(rng, u), perm(rng, t)))] + ["g_tri_cut %s %s" % (T(t), T(u)), "g_plane_plane %s %s" % (T(t), T(u))]
    if k in (7, 8) and s < 1e-6: t, n, s = [mul(1e5, p) for p in t], mul(1e5, n), 1e5 * s       # segments have a least length
    if k == 7:
        a, b = at(t, [rng.uniform(-1, 1), rng.uniform(-1, 1)]), at(t, [rng.uniform(-1, 1), rng.uniform(-1, 1)])
        m = add(a, mul(rng.choice([.5, .1, .9, 1.1, -.1, rng.uniform(-1, 2)]), sub(b, a)))
        d = sub(at(t, [rng.uniform(-1, 1), rng.uniform(-1, 1)]), m)
        if rng.random() < .3: m = add(m, mul(rng.choice([.1, 1e-3, -1]), n))
        f, g = rng.choice([(1, 1), (.5, 2), (-.1, 1), (1, -.3), (3, .01), (-2, 3)])
        c, e = add(m, mul(f, d)), add(m, mul(-g, d))
        return ["g_seg_seg %s %s" % (T(x), T(y)) for x, y in (([a, b], [c, e]), ([e, c], [a, b]), ([b, a], [c, e]))]
    if k == 8:
        a, b = t[0], t[1]
        d = mul(rng.uniform(.3, 2), sub(b, a))
        p = add(a, mul(rng.choice([.1, 1, 2]), n))
        return ["g_seg_seg %s %s" % (T([a, b]), T([p, add(p, d)])), "g_seg_seg %s %s" % (T([a, b]), T([add(p, d), p]))]      # parallel, apart
    u = [add(p, mul(rng.choice([1, .5, 0]), n)) for p in perm(rng, t)]
    if rng.random() < .6:                   # not quite parallel
        e = 10 ** rng.uniform(-4.5, -.5)
        u = [add(p, mul(e * rng.uniform(-1, 1), n)) for p in u]
    return ["g_plane_plane %s %s" % (T(t), T(u)), "g_tri_cut %s %s" % (T(u), T(t))]

def box(rng):
    f = lambda: [[rng.choice([0, 1, 2, 3, rng.uniform(-1, 4)]) for _ in range(3)] for _ in range(rng.choice([1, 2, 3, 3, 5]))]
    return ["g_bbox %s %s" % (T(f()), T(f())) for _ in range(4)]

def point(rng):
    return ["g_point %s %s %s" % (gen.pt(gen.rpoint(rng)), gen.pt(gen.rpoint(rng)), gen.fh(rng.choice([2, -1, .5, 3, rng.uniform(-9, 9)]))) for _ in range(3)] + ["g_segment %s" % T([gen.rpoint(rng), gen.rpoint(rng)])]

def run(ctx):
    rng, scripts = ctx.rng, []
    for kind, r, n in (("contains", 5, 400), ("segtri", 3, 900), ("segseg", 3, 900)):
        h = ctx.model("GeomMC", CFG % (kind, r if ctx.quick else r + 1))
        for i, c in enumerate(gen.sample(rng, h, ctx.n(n, 8000))): scripts.append(("%s-%d" % (kind, i), c))
    for i in range(ctx.n(1500, 20000)): scripts.append(("query-%d" % i, query(rng)))
    for i in range(ctx.n(150, 2000)): scripts.append(("box-%d" % i, box(rng)))
    for i in range(ctx.n(200, 2000)): scripts.append(("point-%d" % i, point(rng)))
    scripts.append(("axis", ["g_axis %d" % i for i in range(40)]))
    ctx.validate(scripts)
