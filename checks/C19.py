"""C19: filling a used object leaves nothing of what was there."""
from lib import gen, ngen, fgen
TECHNIQUE = "TLA+ model of filling operations over the parts of an object (TLC: every chain of filling operations and partial edits up to a depth; operations that keep, add to or fill only empty parts are refuted); every explored chain replayed on the code and compared by TLC with the last operation on a fresh object, and seeded chains across modules judged by the full specification"
CFG = """SPECIFICATION Spec
CONSTANTS Depth = %d Fault = "none" Emit = TRUE Kinds = {%s}
INVARIANT NoResidue
ACTION_CONSTRAINT EmitAll
"""
FAULT = """SPECIFICATION Spec
CONSTANTS Depth = 3 Fault = "%s" Emit = FALSE Kinds = {"mesh", "curve", "surface", "solid", "image", "smooth"}
INVARIANT NoResidue
"""
KINDS = ["mesh", "curve", "surface", "solid", "image", "smooth"]
def num(rng): return rng.choice([0.5, 1, 2, 3, rng.uniform(.2, 6)])
def fh(x): return gen.fh(x)

def moderate(rng, name):
    """a mesh with coordinates of one magnitude"""
    v = [gen.rpoint(rng, 0) for _ in range(rng.choice([0, 3, 5]))]
    t = [rng.sample(range(len(v)), 3) for _ in range(rng.randint(0, 4))] if v else []
    return "m_load %s %d %s %d %s" % (name, rng.choice([-1, 5]), gen.pts(v), len(t), " ".join("%d %d %d %d" % (*x, rng.random() < .25) for x in t))
FORMS = ["tetrahedron", "box", "octahedron", "dodecahedron", "icosahedron", "cylinder", "sphere_uv", "sphere_geodesic", "torus"]
def mesh_fill(rng, x, k=None):
    if k is None: k = rng.choice([0, 0, 0, *range(3, 13)])
    if k == 0 or k > 12:
        f = FORMS[k - 13] if k else rng.choice(FORMS)
        a = {"box": [num(rng) for _ in range(3)], "cylinder": [num(rng), num(rng)], "torus": [3 + num(rng), num(rng) / 3]}.get(f, [num(rng)])
        return ["m_factory %s %s %s %d" % (x, f, gen.ds(a), rng.randint(3, 4) if f != "sphere_geodesic" else rng.randint(1, 2))]
    if k == 3: w, h = rng.randint(1, 5), rng.randint(1, 5); return ["m_from_z %s %d %d %s" % (x, w, h, gen.ds([num(rng) for _ in range(w * h)]))]
    if k == 4: w, h = rng.randint(1, 4), rng.randint(1, 4); return ["m_from_grid %s %d %d %s" % (x, w, h, gen.pts([gen.rpoint(rng) for _ in range(w * h)]))]
    if k == 5: return [moderate(rng, "N"), "m_tessellate %s N %d" % (x, rng.randint(1, 3))]
    if k == 6: return ngen.surface(rng, "T", nu=3, nv=3, du=2, dv=2)[0] + ["n_mesh %s T %d %d" % (x, rng.randint(1, 2), rng.choice([1, 2]))]
    if k == 7: return (ngen.surface(rng, "T")[0] if rng.random() < .7 else ["n_clear T"]) + ["n_ctrl %s T" % x]
    if k == 8: return ["n_factory T quad 12 0 0 0 1 0 0 1 1 0 0 1 3", "o_new U"] + ["o_add U T"] * rng.randrange(3) + ["o_mesh %s U %d 2" % (x, rng.randint(1, 2))]
    if k == 9: return [fgen.mesh(rng, "N", color=rng.choice([-1, 5])), "f_save S S0 N", "f_load S S0 " + x]
    if k == 10: return [fgen.mesh(rng, "N", color=rng.choice([-1, 0xff00ff])), "f_save O O0 N", "f_load O O0 " + x]
    if k == 11: return [fgen.mesh(rng, "N"), "%s %s N" % (rng.choice(["m_copy", "m_assign"]), x)]
    return ["m_clear " + x]
def mesh_edit(rng, x):
    return rng.choice([["m_color %s %d" % (x, rng.randrange(1 << 24))], ["m_add_triangle_p %s %s" % (x, " ".join(gen.pt(gen.rpoint(rng)) for _ in range(3))), "m_unlink %s 0" % x],
                       [fgen.mesh(rng, "N"), "m_append %s N" % x], ["m_add_vertex %s 1 2 3" % x], ["m_append %s %s" % (x, x)] ])
def curve_fill(rng, x, k=None):
    if k is None: k = rng.randrange(6)
    if k == 0: return ["c_circle %s %s" % (x, fh(num(rng)))]
    if k == 1: d = rng.randint(1, 3); return ["c_from_points %s %s %d" % (x, gen.pts([gen.rpoint(rng) for _ in range(rng.randint(d + 1, d + 4))]), d)]
    if k == 2: return ["c_clear " + x]
    return ngen.curve(rng, x)[0]
def curve_edit(rng, x):
    return rng.choice([["c_weights %s %s" % (x, gen.ds([num(rng) for _ in range(rng.randint(0, 14))]))], ["c_knots %s %s" % (x, gen.ds(sorted([0, 2] + [rng.randint(0, 2) for _ in range(rng.randint(0, 9))])))],
                       ["c_degree %s %d" % (x, rng.randint(1, 6))], ["c_points %s %s" % (x, gen.pts([gen.rpoint(rng) for _ in range(rng.randint(0, 9))]))]])
def profile(rng, c):
    return ["c_new " + c, "c_from_points %s %s %d" % (c, gen.pts([[num(rng), 0, i] for i in range(3)]), rng.randint(1, 2))]
def surface_fill(rng, x, k=None):
    if k is None: k = rng.randrange(10)
    if k == 0: return ["n_factory %s %s" % (x, rng.choice(["triangle 9 0 0 0 1 0 0 0 1 0", "quad 12 0 0 0 1 0 0 1 1 0 0 1 3", "disk 1 2", "sphere 1 1", "torus 2 3 1"]))]
    if k == 1: return ngen.curve(rng, "P")[0] + ["n_extrude %s P %s" % (x, gen.pt(gen.rpoint(rng, 0)))]
    if k == 2:
        d, n = rng.randint(1, 3), rng.randint(4, 6)
        return ["c_new P", "c_new Q"] + ["c_from_points %s %s %d" % (c, gen.pts([gen.rpoint(rng, 0) for _ in range(n)]), d) for c in "PQ"] + ["n_ruled %s P Q" % x]
    if k == 3: return profile(rng, "P") + ["n_revolve %s P" % x]
    if k == 4: d = rng.randint(1, 3); w, h = d + rng.randint(1, 3), d + rng.randint(1, 3); return ["n_from_z %s %d %d %d %s" % (x, w, h, d, gen.ds([num(rng) for _ in range(w * h)]))]
    if k == 5: return ["n_clear " + x]
    if k == 6: return ["c_circle P 2", "n_extrude %s P 0 0 3" % x]
    return ngen.surface(rng, x)[0]
def surface_edit(rng, x):
    def kn(): return gen.ds(sorted([0, 2] + [rng.randint(0, 2) for _ in range(rng.randint(0, 8))]))
    return [rng.choice(["n_closed_u %s 1" % x, "n_closed_v %s 1" % x, "n_closed_u %s 0" % x, "n_weights %s %s" % (x, gen.ds([num(rng) for _ in range(rng.randint(0, 12))])), "n_knots_u %s %s" % (x, kn()), "n_knots_v %s %s" % (x, kn()),
                        "n_degree %s %d %d" % (x, rng.randint(1, 5), rng.randint(1, 5))])]
def image_fill(rng, x, k=None):
    if k is None: k = rng.randrange(6)
    if k == 0: return ["i_sierpinski %s %d %d" % (x, rng.randint(1, 9), rng.randint(1, 9))]
    if k == 1: return ["i_mandelbrot %s %d %d %d" % (x, rng.randint(1, 7), rng.randint(1, 6), rng.randint(1, 40))]
    w, h, p = rng.randint(1, 6), rng.randint(1, 6), rng.choice([1, 3, 4])
    s = ["i_load J %d %d %d %s" % (w, h, p, gen.iv([rng.randrange(256) for _ in range(rng.randint(2, 40))]))]
    if k == 2 and p >= 3: return s + ["i_bw %s J" % x]
    if k == 3: return s + ["f_save B B0 J", "f_load B B0 " + x]
    if k == 4: return s + ["i_to_double J %s" % gen.ds([9.5] * rng.randint(0, 50)), "i_assign %s J" % x]
    return s + ["i_assign %s J" % x]
def image_edit(rng, x):
    w, h, p = rng.randint(1, 9), rng.randint(1, 9), rng.choice([1, 2, 3, 4])
    return ["i_resize %s %d %d %d" % (x, w, h, p), "i_set %s %d %d %d %d" % (x, w - 1, h - 1, p - 1, rng.randrange(256))]
def solid_fill(rng, x, k=None):
    if k is None: k = rng.randrange(4)
    if k == 0: return ["o_factory %s %s" % (x, rng.choice(["box 3 1 2 3", "cylinder 2 2 1", "sphere 1 2", "torus 2 4 1"]))]
    if k == 1: return [moderate(rng, "N"), "o_from_mesh %s N" % x]
    if k == 2: return ["o_clear " + x]
    return ["o_new U", "n_factory T disk 1 2", "o_add U T", "o_assign %s U" % x]
def solid_edit(rng, x): return ["n_factory T disk 1 2", "o_add %s T" % x]
def smooth_fill(rng, x, k=None): return ["sm_factory %s %s" % (x, rng.choice(["box 3 1 2 3", "tetrahedron 1 2", "sphere 1 1", "octahedron 1 2", "icosahedron 1 2", "dodecahedron 1 2"]))] if rng.random() < .8 else ["sm_clear " + x]
def smooth_edit(rng, x): return ["sm_flat_triangle %s 3 0 0 0 1 0 0 0 1 0" % x]
TABLE = {"m": (mesh_fill, mesh_edit), "c": (curve_fill, curve_edit), "n": (surface_fill, surface_edit), "i": (image_fill, image_edit), "o": (solid_fill, solid_edit), "sm": (smooth_fill, smooth_edit)}

FILLS = {"m": [*range(3, 22)], "c": range(6), "n": range(10), "i": range(6), "o": range(4), "sm": [0, 1]}
# what an object holds before it is filled, part by part
PARTS = {"m": [["m_add_vertex X 7 7 7"], ["m_add_triangle_p X 0 0 0 5 0 0 0 5 1"], ["m_add_triangle_p X 0 0 0 5 0 0 0 5 1", "m_unlink X 0"], ["m_color X 77"]],
         "c": [["c_points X 4 0 0 0 1 0 0 1 1 0 2 1 5"], ["c_weights X 3 2 2 5"], ["c_knots X 4 0 0 3 3"], ["c_degree X 4"]],
         "n": [["n_closed_u X 1"], ["n_closed_v X 1"], ["n_weights X 4 1 2 3 4"], ["n_knots_u X 4 0 0 3 3"], ["n_knots_v X 4 0 0 3 3"], ["n_degree X 3 2"]],
         "i": [["i_resize X 3 5 1", "i_set X 2 4 0 9"], ["i_resize X 7 2 4", "i_set X 0 1 3 200"]],
         "o": [["n_factory T disk 1 2", "o_add X T"]], "sm": [["sm_flat_triangle X 3 0 0 0 1 0 0 0 1 0"], ["sm_factory X box 3 1 2 3"]]}
def chain(rng, k, fill=None, pre=None):
    f, g = TABLE[k]
    s = ["%s X" % ("i_default" if k == "i" else k + "_new")]
    if pre is not None: s += pre
    else:
        for _ in range(rng.randint(1, 4)): s += f(rng, "X") if rng.random() < .55 else g(rng, "X")
    last = f(rng, "X", fill)
    fresh = ["i_default Y" if k == "i" else k + "_new Y"] if k in "cn" or k == "o" else ["%s Y" % ("i_default" if k == "i" else k + "_new")]
    tail = [" ".join("Y" if w == "X" else w for w in c.split(" ")) for c in last]
    if k == "n":
        # setters leave the closed flags; filling operations do not
        if any(c.startswith("n_points") for c in last): return s + last
    s += last + fresh + tail + ["%s_twin X Y" % k]
    if k == "c": s += ["c_poly X %d" % rng.choice([0, 3, 500])] if rng.random() < .5 and not last[-1].startswith("c_clear") else []
    return s

def run(ctx):
    rng, scripts = ctx.rng, []
    for f in ("keep", "append", "once"): ctx.refuted("ResidueMC", FAULT % f)
    for k in KINDS:
        h = ctx.model("ResidueMC", CFG % (3 if ctx.quick or k == "mesh" else 4, '"%s"' % k))
        short = [c for c in h if sum(" X" in x for x in c) <= 3]         # every ordered pair
        for i, c in enumerate(gen.sample(rng, short, ctx.n(110, 700))): scripts.append(("mc-%s-pair-%d" % (k, i), c))
        for i, c in enumerate(gen.sample(rng, h, ctx.n(40, 1500))): scripts.append(("mc-%s-%d" % (k, i), c))
    for i in range(ctx.n(1, 5)):
        for k in TABLE:             # every filling operation over every part alone
            for j in FILLS[k]:
                for n, p in enumerate(PARTS[k]): scripts.append(("part-%s-%d-%d-%d" % (k, j, n, i), chain(rng, k, j, p)))
    for i in range(ctx.n(25, 600)):
        for k in TABLE: scripts.append(("%s-%d" % (k, i), chain(rng, k)))
    ctx.validate(scripts)
