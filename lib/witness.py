"""Witnesses added to recorded events before they are checked.  A witness only names
something the specification then verifies (which input triangle an output triangle lies
in, which vertices share a place); a wrong witness can only lead to rejection."""
import json, math

def f(x):
    return float.fromhex(x[1:]) if isinstance(x, str) and x[1:] not in ("nan", "inf") else float("nan") if isinstance(x, str) else float(x)
def P(p): return [f(c) for c in p]
def sub(a, b): return [a[i] - b[i] for i in range(3)]
def dot(a, b): return sum(a[i] * b[i] for i in range(3))

def mesh(e, n):
    m = e["ms"][n]
    return [P(p) for p in m["v"]], [t for t in m["t"]]

def stripes(n):
    for s in range(n):
        yield ((s, 0), (s + 1, 0), (s, 1))
        for j in range(s):
            yield ((s - j, j), (s - j, j + 1), (s - j - 1, j + 1))
            yield ((s - j - 1, j + 1), (s - j, j + 1), (s - j - 1, j + 2))

def tessellate(e):
    v, t = mesh(e, e["f"])
    t = [x for x in t if x]
    ov, ot = mesh(e, e["m"])
    n = e["n"]
    ext = max([abs(c) for p in v for c in p] + [1e-6])
    eps = 1e-7 * ext
    pos = lambda k, u: [v[t[k][0]][i] + (v[t[k][1]][i] - v[t[k][0]][i]) * u[0] / n + (v[t[k][2]][i] - v[t[k][0]][i]) * u[1] / n for i in range(3)]
    near = lambda p, q: all(abs(p[i] - q[i]) <= eps for i in range(3))
    used = [set() for _ in t]
    order = list(range(len(t)))
    def fit(k, c):
        a, b, d = (v[i] for i in t[k])
        e1, e2 = sub(b, a), sub(d, a)
        g11, g12, g22 = dot(e1, e1), dot(e1, e2), dot(e2, e2)
        det = g11 * g22 - g12 * g12
        if det <= 1e-20 * max(g11 * g22, 1e-300):
            for tr in stripes(n):
                if frozenset(tr) in used[k]: continue
                for r in range(3):
                    x = tr[r:] + tr[:r]
                    if all(near(pos(k, x[i]), c[i]) for i in range(3)): return x
            return None
        out = []
        for p in c:
            w = sub(p, a)
            b1, b2 = dot(w, e1), dot(w, e2)
            u, s = (b1 * g22 - b2 * g12) / det * n, (b2 * g11 - b1 * g12) / det * n
            if u != u or s != s or abs(u) > 1e6 or abs(s) > 1e6: return None
            x = (round(u), round(s))
            if not near(pos(k, x), p): return None
            out.append(x)
        x = tuple(out)
        return None if frozenset(x) in used[k] else x
    own, lat, last = [], [], 0
    for x in ot:
        if not x or not t:
            own.append(0); lat.append([[0, 0]] * 3)
            continue
        c = [ov[i] for i in x]
        best = None
        for d in range(len(t)):
            k = (last + d) % len(t)
            if len(used[k]) >= n * n: continue
            y = fit(k, c)
            if y is not None:
                best = (k, y)
                break
        if best is None:
            own.append(0); lat.append([[0, 0]] * 3)
        else:
            k, y = best
            last = k
            used[k].add(frozenset(y))
            own.append(k + 1); lat.append([list(u) for u in y])
    e["own"], e["lat"] = own, lat

def weld(vs, eps):
    """classes of points closer than eps (points of the same place differ by rounding only)"""
    grid, out, rep = {}, [], []
    h = eps * 4
    for p in vs:
        if any(c != c or abs(c) > 1e300 for c in p):
            out.append(0); continue
        key = tuple(math.floor(c / h) for c in p)
        hit = None
        for dx in (0, -1, 1):
            for dy in (0, -1, 1):
                for dz in (0, -1, 1):
                    for k in grid.get((key[0] + dx, key[1] + dy, key[2] + dz), ()):
                        if all(abs(rep[k][i] - p[i]) <= eps for i in range(3)): hit = k; break
                    if hit is not None: break
                if hit is not None: break
            if hit is not None: break
        if hit is None:
            hit = len(rep); rep.append(p)
            grid.setdefault(key, []).append(hit)
        out.append(hit + 1)
    return out

def factory(e):
    a = [f(x) for x in e["a"]]
    k = e["k"]
    size = min(a[:3]) if k == "box" else min(a[:2]) if k in ("cylinder", "torus") else a[0]
    v, t = mesh(e, e["m"])
    e["weld"] = weld(v, abs(size) * 0.9e-9)

def shape(e):
    v, t = mesh(e, e["m"])
    e["weld"] = weld(v, max(abs(f(x)) for x in e["a"]) * 0.9e-9)

def corners(e):
    """weld classes of the corner probes of a smooth factory shape"""
    q = e["sm"][e["m"]]["q"]
    a = [f(x) for x in e["a"]]
    e["weld"] = weld([P(b[i]) for b in q for i in range(3)], (min(a[:3]) if e["k"] == "box" else a[0]) * 0.9e-9)

def lattice(e):
    """lattice point of every sample of a Bezier patch: row by row, unless positions say otherwise"""
    n, v0 = e["n"], e["v0"]
    k = (n + 1) * (n + 2) // 2
    v = mesh(e, e["m"])[0][v0:]
    rows = [[iu, n - s - iu] for s in range(n + 1) for iu in range(n - s + 1)]
    q = e["sm"][e["f"]]["q"] if e["op"] == "sm_mesh" else [e["bz"][e["f"]]]
    out = []
    for i, b in enumerate(q):
        b = [P(x) for x in b]
        w = v[i * k:(i + 1) * k]
        # corners tell the order when the patch is not degenerate
        ok = len(w) == k and all(all(abs(w[rows.index(c)][j] - p[j]) < 1e-7 * (1 + abs(p[j])) for j in range(3)) for c, p in (([n, 0], b[1]), ([0, n], b[2]), ([0, 0], b[0])))
        if ok or len(w) != k: out.append(rows); continue
        out.append(rows)      # another order: matched by position, when the patch is flat
        e1, e2 = sub(b[1], b[0]), sub(b[2], b[0])
        g11, g12, g22 = dot(e1, e1), dot(e1, e2), dot(e2, e2)
        det = g11 * g22 - g12 * g12
        if det > 0:
            l = []
            for p in w:
                d = sub(p, b[0])
                x, y = dot(d, e1), dot(d, e2)
                l.append([round((x * g22 - y * g12) / det * n), round((y * g11 - x * g12) / det * n)])
            out[-1] = l
    e["vl"] = out

ADD = {"sm_factory": corners, "b_mesh": lattice, "sm_mesh": lattice, "o_shape": shape, "m_tessellate": tessellate, "m_factory": factory}

def annotate(path):
    out = []
    with open(path) as fh:
        for l in fh:
            op = l[7:l.index('"', 7)] if l.startswith('{"op":"') else ""
            if op in ADD:
                e = json.loads(l)
                ADD[op](e)
                l = json.dumps(e, separators=(",", ":")) + "\n"
            out.append(l)
    with open(path, "w") as fh: fh.writelines(out)
