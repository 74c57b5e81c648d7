"""C08: mesh factory shapes are closed, outward and on the ideal surface."""
from lib import gen
TECHNIQUE = "TLA+ characterisation of every factory shape (closed 2-manifold, Euler characteristic, outward, on the ideal surface, volume); every recorded factory result over sizes and levels of detail checked by TLC against it in exact arithmetic"
MC = """SPECIFICATION Spec
CONSTANTS NVert = 3 NPool = 2 Depth = 1 Ops = {"drop"} Emit = FALSE
VIEW View
PROPERTIES DropSound
"""
POLY = ["tetrahedron", "octahedron", "dodecahedron", "icosahedron"]
LOD = ["cylinder", "sphere_geodesic", "sphere_uv", "torus"]

def params(rng, k):
    s = rng.choice([1e-3, 0.01, 0.37, 1.0, 1.0, 2.5, 10.0, 123.456, 1000.0, rng.uniform(0.01, 20), 10 ** rng.uniform(-6, 6)])
    r = 10 ** rng.uniform(-3, 3)
    if k == "box": return [s * rng.choice([1, 1, 0.5, 3, rng.uniform(.1, 5), r]) for _ in range(3)]
    if k == "cylinder": return [s * rng.choice([1, 0.2, 4, r]), s * rng.choice([1, .3, 2])]
    if k == "torus": return [s, s * rng.choice([0.5, 0.1, 0.9, 0.25, 10 ** rng.uniform(-3, -0.01)])]
    return [s]

def run(ctx):
    rng, scripts = ctx.rng, []
    ctx.model("MeshOpsMC", MC)
    j = 0
    def add(k, a, n):
        nonlocal j
        scripts.append(("%s-%d-%d" % (k, n, j), ["m_factory A %s %s %d" % (k, gen.ds(a), n)])); j += 1
    for k in POLY + ["box"]:
        for _ in range(ctx.n(8, 60)): add(k, params(rng, k), 1)
    for k in LOD:
        for n in range(1, {"cylinder": 12, "sphere_geodesic": 6, "sphere_uv": 6, "torus": 5}[k] + (0 if ctx.quick else 4)):
            for _ in range(ctx.n(2, 5)): add(k, params(rng, k), n)
    for k, n in [("cylinder", rng.randint(30, 80)), ("sphere_geodesic", rng.randint(7, 12)), ("sphere_uv", rng.randint(8, 13)), ("torus", rng.randint(8, 12))] * ctx.n(1, 3): add(k, params(rng, k), n)
    # a dirty target, coloured
    for i in range(ctx.n(12, 60)):
        s = ["m_color A 77"]
        for _ in range(3):
            k = rng.choice(POLY + LOD + ["box"])
            s.append("m_factory A %s %s %d" % (k, gen.ds(params(rng, k)), rng.randint(1, 2)))
        scripts.append(("chain-%d" % i, s))
    ctx.validate(scripts)
