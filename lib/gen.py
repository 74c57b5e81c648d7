"""Script building blocks shared by the checks (drivers only: no oracle lives here)."""
import math

def fh(x):
    """a double, exactly"""
    return float(x).hex() if x != int(x) or abs(x) > 1e15 else str(int(x))
def pt(p): return " ".join(fh(c) for c in p)
def pts(ps): return "%d %s" % (len(ps), " ".join(pt(p) for p in ps))
def ds(v): return "%d %s" % (len(v), " ".join(fh(c) for c in v))
def iv(v): return "%d %s" % (len(v), " ".join(str(c) for c in v))

def dedup_prefixes(hs):
    """drop histories that are a prefix of another one"""
    hs = sorted(set(tuple(h) for h in hs))
    out = []
    for i, h in enumerate(hs):
        if i + 1 < len(hs) and hs[i + 1][:len(h)] == h: continue
        out.append(list(h))
    return out

def sample(rng, xs, n):
    return xs if len(xs) <= n else [xs[i] for i in sorted(rng.sample(range(len(xs)), n))]

def rpoint(rng, kind=None):
    k = kind if kind is not None else rng.randrange(6)
    if k == 0: return [rng.randint(-3, 3) for _ in range(3)]
    if k == 1: return [rng.uniform(-1, 1) for _ in range(3)]
    if k == 2: return [rng.uniform(-1e3, 1e3) for _ in range(3)]
    if k == 3: return [rng.randint(-40, 40) / 8 for _ in range(3)]
    if k == 4: return [rng.gauss(0, 1) * 10 ** rng.randint(-6, 6) for _ in range(3)]
    return [rng.choice([0.0, 1.0, -1.0, 0.5, 1e-7, 1e7]) for _ in range(3)]

def unit(rng):
    k = rng.randrange(3)
    if k == 0:
        a = [0.0, 0.0, 0.0]
        a[rng.randrange(3)] = rng.choice([1.0, -1.0])
        return a
    while True:
        v = [rng.gauss(0, 1) for _ in range(3)]
        n = math.sqrt(sum(c * c for c in v))
        if n > 1e-3: return [c / n for c in v]

def angle(rng):
    return rng.choice([0, 30, 45, 60, 90, 120, 180, 270, 360, -90, -45, -180, 720, rng.uniform(-360, 360), rng.uniform(-10, 10), rng.uniform(-2000, 2000), rng.choice([1, -1]) * 10 ** rng.uniform(-7, 4)])

def transform(rng):
    k = rng.choice(["translation", "scale", "scale_default", "euler", "euler_set", "quat", "quat_set", "quat_default", "quat_aa",
                    "mat", "mat_set", "mat_default", "mat_aa", "aa", "aa_set", "aa_from", "aa_default"])
    if k == "translation": a = rpoint(rng)
    elif k == "scale": a = [rng.choice([1, -1, 2, 0.5, 0, rng.uniform(-3, 3), rng.choice([1, -1]) * 10 ** rng.uniform(-9, 6)]) for _ in range(3)]
    elif k.endswith("default"): a = []
    elif k.startswith("euler"): a = [angle(rng) for _ in range(3)]
    elif k in ("quat", "quat_set"):
        h = math.radians(angle(rng)) / 2
        u = unit(rng)
        a = [math.cos(h)] + [math.sin(h) * c for c in u]
        if rng.random() < .3: a = rng.choice([[0, 1, 0, 0], [0, 0, 1, 0], [0, 0, 0, 1], [0, .6, .8, 0], [0, .6, 0, -.8], [-1, 0, 0, 0], [.6, 0, .8, 0], [.5, .5, .5, .5], [.5, -.5, .5, -.5], [-.6, 0, 0, .8]])
    elif k in ("mat", "mat_set"): a = [rng.choice([0, 1, -1, rng.uniform(-2, 2)]) for _ in range(9)]
    else: a = [angle(rng)] + unit(rng)
    if not a: a = [1.0]
    return "%s %s" % (k, ds(a))
