"""Drivers for curves and surfaces (no oracle lives here)."""
from lib import gen

def knots(rng, d, n, clamped=True):
    """n + d + 1 sorted values with interior multiplicity at most d"""
    style = rng.randrange(4)
    inner = n - d - 1
    if not clamped:
        k = sorted(rng.uniform(-3, 9) for _ in range(n + d + 1))
        for i in range(len(k) - 1):
            if k[i + 1] - k[i] < min(1e-3, 0.1 / len(k) ** 2): return knots(rng, d, n, clamped)
        return k
    a, b = rng.choice([(0, 1), (0, 1), (0, 8), (-2, 3), (10, 11.5)])
    g, out = (16 if inner < 8 else 4 * inner), []
    while len(out) < inner:
        if style == 0: x = a + (b - a) * rng.randint(1, g - 1) / g
        elif style == 1: x = a + (b - a) * (len(out) + 1) / (inner + 1)
        else: x = a + (b - a) * rng.uniform(0.02, 0.98)
        m = rng.randint(1, d) if style in (0, 3) else 1
        m = min(m, inner - len(out))
        if any(abs(x - y) < (b - a) * min(0.01, 0.2 / inner) for y in out): continue
        out += [x] * m
    return [a] * (d + 1) + sorted(out) + [b] * (d + 1)

def wild_knots(rng, d, n):
    """sorted, on few distinct values: torn, partly clamped or not at all; the domain is not empty"""
    while True:
        m = rng.randint(1, n)
        k = sorted(rng.randint(0, m) / rng.choice([1, 1, 4, 3]) for _ in range(n + d + 1))
        if rng.random() < .5: k[:d + 1] = [k[0]] * (d + 1); k[n:] = [k[-1]] * (d + 1)
        if k[d] < k[n] and k == sorted(k) and k[0] < k[-1]: return k

def wild_weights(rng, n):
    """no two neighbours null"""
    w = weights(rng, n)
    for i in range(1, n - 1):
        if w[i - 1] and rng.random() < .3: w[i] = 0
    return w

def inside(lo, hi, k):
    """the ends of the domain, not within a rounding of the knots which only the code scales"""
    e = (hi - lo) * 1e-9
    return (lo if lo == k[0] else lo + e), (hi if hi == k[-1] else hi - e)

def wild_params(rng, d, n, k, c):
    """parameters where the basis is complete and some weight counts"""
    lo, hi = inside(k[d], k[n], k)
    u = [lo] + [x for x in k if lo <= x < hi] + [lo + (hi - lo) * rng.random() for _ in range(4)] + [lo + (hi - lo) * (1 - 1e-9)]
    if k[n] == k[-1] and c: u.append(hi)
    return [rng.choice(u) for _ in range(7)]

def near(rng, k):
    """a parameter very close to one of the inner knots"""
    x = rng.choice([y for y in k if 0 < y < 1] or [0.5])
    u = x + rng.choice([1, -1]) * 10 ** rng.uniform(-9, -3)
    return u if 0 < u < 1 else None

def unit_knots(k):
    a, b = k[0], k[-1]
    return [(x - a) / (b - a) for x in k]

def weights(rng, n):
    s = rng.randrange(4)
    if s == 0: return [1] * n
    if s == 1: return [rng.choice([1, 2, 0.5, 0.25]) for _ in range(n)]
    if s == 2: return [2.0 ** -0.5 if i % 2 else 1 for i in range(n)]
    return [10 ** rng.uniform(-1.5, 1.5) for _ in range(n)]

def points(rng, n):
    k = rng.choice([0, 1, 2, 3, 3])
    p = [gen.rpoint(rng, k) for _ in range(n)]
    if rng.random() < .2:
        for q in p: q[rng.randrange(3)] = 0
    if rng.random() < .2: p[-1] = list(p[0])
    if rng.random() < .15:                   # points on each other
        for i in range(1, n):
            if rng.random() < .4: p[i] = list(p[i - 1])
    return p

def curve(rng, m, d=None, n=None, clamped=True, pts=None, shuffle=True, k=None):
    """commands giving curve m; returns (commands, degree, number of points, knots in [0,1])"""
    d = d or rng.choice([1, 2, 2, 3, 3, 4, 5])
    n = n or rng.choice([d + 1, d + 1, d + 2, d + 3, d + rng.randint(1, 6)])
    p = pts or points(rng, n)
    if k is None:
        if rng.random() < .25 and clamped:
            c = ["c_degree %s %d" % (m, d), "c_points %s %s" % (m, gen.pts(p)), "c_uniform %s" % m]
            k = [0] * (d + 1) + [i / (n - d) for i in range(1, n - d)] + [1] * (d + 1)
            c.append("c_equal " + m if rng.random() < .5 else "c_weights %s %s" % (m, gen.ds(weights(rng, n))))
            return c, d, n, k
        k = knots(rng, d, n, clamped)
    c = ["c_degree %s %d" % (m, d), "c_knots %s %s" % (m, gen.ds(k)), "c_points %s %s" % (m, gen.pts(p)), "c_weights %s %s" % (m, gen.ds(weights(rng, n)))]
    if shuffle: rng.shuffle(c)
    return c, d, n, unit_knots(k)

def params(rng, d, k, n, clamped=True):
    lo, hi = (0.0, 1.0) if clamped else inside(k[d], k[len(k) - 1 - d], k)
    base = [0.0, 1.0] + [x for x in k if lo <= x <= hi] if clamped else [lo]
    u = []
    for _ in range(n):
        r = rng.random()
        if r < .35: u.append(rng.choice(base))
        elif r < .5 and clamped: u.append(rng.choice([0.5, 0.25, 0.75, 1 / 3, 1e-9, 1 - 1e-9, 0.1]))
        else: u.append(rng.uniform(lo, hi))
    return [min(max(x, lo), hi) if clamped else x for x in u]

def surface(rng, m, du=None, dv=None, nu=None, nv=None, shuffle=True, clamped=True):
    du = du or rng.choice([1, 2, 2, 3, 4]); dv = dv or rng.choice([1, 1, 2, 3])
    nu = nu or rng.choice([du + 1, du + 2, du + 3]); nv = nv or rng.choice([dv + 1, dv + 2, dv + 4])
    p = points(rng, nu * nv)
    c = ["n_degree %s %d %d" % (m, du, dv), "n_points %s %s %d %d" % (m, gen.pts(p), nu, nv)]
    if rng.random() < .3 and clamped:
        ku = [0] * (du + 1) + [i / (nu - du) for i in range(1, nu - du)] + [1] * (du + 1)
        kv = [0] * (dv + 1) + [i / (nv - dv) for i in range(1, nv - dv)] + [1] * (dv + 1)
        e = ["n_uniform_u " + m, "n_uniform_v " + m, "n_equal " + m if rng.random() < .4 else "n_weights %s %s" % (m, gen.ds(weights(rng, nu * nv)))]
        rng.shuffle(e)
        return c + e, (du, nu, ku), (dv, nv, kv)
    ku, kv = knots(rng, du, nu, clamped), knots(rng, dv, nv, clamped)
    c += ["n_knots_u %s %s" % (m, gen.ds(ku)), "n_knots_v %s %s" % (m, gen.ds(kv)), "n_weights %s %s" % (m, gen.ds(weights(rng, nu * nv)))]
    if shuffle: rng.shuffle(c)
    return c, (du, nu, unit_knots(ku)), (dv, nv, unit_knots(kv))

def evals(rng, m, U, V, n=6):
    return "n_eval %s %s %s" % (m, gen.ds(params(rng, U[0], U[2], n)), gen.ds(params(rng, V[0], V[2], n)))

def mult(k, x): return sum(1 for y in k if y == x)
def inserted(k, u):
    return sorted(k + [u])
def raised(k):
    return sorted(k + sorted(set(k)))
