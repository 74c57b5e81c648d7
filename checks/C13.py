"""C13: a curve evaluates to its rational B-spline definition."""
from lib import gen, ngen
TECHNIQUE = "TLA+ Cox-de Boor definition of rational B-spline curves over exact rationals; setter histories in every order, evaluations, spans and closedness recorded from the code are checked by TLC against the definition, and the definition itself is model-checked (partition of unity, ends, hull, refinement)"
MC = """SPECIFICATION Spec
CONSTANTS Kind = "curve" Depth = %d Emit = TRUE
INVARIANTS Sound Ends Hull Unity EmitState
"""

def run(ctx):
    rng, scripts = ctx.rng, []
    h = gen.dedup_prefixes(ctx.model("NurbsMC", MC % ctx.n(2, 3)))
    for i, c in enumerate(h): scripts.append(("mc-%d" % i, c))
    for i in range(ctx.n(220, 4000)):
        s = []
        for rep in range(rng.choice([1, 1, 2, 3])):          # the same object set again, from any state
            cl = rng.random() > .12
            c, d, n, k = ngen.curve(rng, "A", clamped=cl)
            s += c
            s.append("c_eval A " + gen.ds(ngen.params(rng, d, k, 8, cl)))
            if rng.random() < .5:                             # one thing changed at a time
                x = rng.randrange(5)
                if x == 0: s.append("c_points A " + gen.pts(ngen.points(rng, n)))
                elif x == 1: s.append("c_weights A " + gen.ds(ngen.weights(rng, n)))
                elif x == 2: s.append("c_move A %d %s" % (rng.randrange(n), gen.pt(gen.rpoint(rng))))
                elif x == 3: s.append("c_equal A")
                else:
                    k = ngen.knots(rng, d, n); cl = True
                    s.append("c_knots A " + gen.ds(k)); k = ngen.unit_knots(k)
                s.append("c_eval A " + gen.ds(ngen.params(rng, d, k, 4, cl)))
            if rng.random() < .4: s += ["c_closed_default A"]
            if rng.random() < .3: s += ["c_copy B A", "c_move A 0 9 9 9", "c_eval B " + gen.ds(ngen.params(rng, d, k, 3, cl)), "c_assign A B"]
            if rng.random() < .15: s += [rng.choice(["c_clear A", "c_new A"])]
        scripts.append(("curve-%d" % i, s))
    for i in range(ctx.n(12, 150)):          # many control points, high degrees
        d = rng.choice([1, 2, 3, 3, 5, 7, 9]); cl = rng.random() > .12
        c, d, n, k = ngen.curve(rng, "A", d=d, n=rng.choice([d + 1, 20, 40, 70, 140]), clamped=cl)
        scripts.append(("many-%d" % i, c + ["c_eval A " + gen.ds(ngen.params(rng, d, k, 6, cl))]))
    for i in range(ctx.n(60, 800)):          # piecewise constant, torn, partly clamped; weights that are null
        d = rng.choice([0, 1, 1, 2, 2, 3, 4]); n = d + rng.randint(1, 6)
        k, w = ngen.wild_knots(rng, d, n), rng.random() < .3
        c = ["c_degree A %d" % d, "c_knots A " + gen.ds(k), "c_points A " + gen.pts(ngen.points(rng, n)), "c_weights A " + gen.ds(ngen.wild_weights(rng, n) if w and d else ngen.weights(rng, n))]
        rng.shuffle(c)
        k = ngen.unit_knots(k)
        u = ngen.wild_params(rng, d, n, k, True)
        if w and d: u = [x for x in u if x not in k] or [k[d] + 0.37 * (min(y for y in k if y > k[d]) - k[d])]
        scripts.append(("wild-%d" % i, c + ["c_eval A " + gen.ds(u)]))
    for i in range(ctx.n(60, 600)):          # knot spans
        d = rng.randint(1, 4)
        k = ngen.unit_knots(ngen.knots(rng, d, rng.randint(d + 1, d + 8), rng.random() < .8))
        t = sorted(rng.choice([0, 1, rng.choice(k), rng.choice(k), rng.random()]) for _ in range(12))
        scripts.append(("span-%d" % i, ["g_span %s %s" % (gen.ds(k), gen.ds(t))]))
    for i in range(ctx.n(60, 400)):          # closedness
        n = rng.randint(1, 6)
        p = [gen.rpoint(rng, rng.choice([0, 1, 3])) for _ in range(n)]
        s = []
        for _ in range(4):
            tol = rng.choice([1e-6, 1e-3, 0.5, 2.0, 10 ** rng.uniform(-9, 1)])
            u, f = gen.unit(rng), rng.choice([0, 0.5, 0.99, 1, 1, 1.01, 2, rng.uniform(0, 3)])
            p[-1] = [p[0][j] + u[j] * f * tol for j in range(3)] if n > 1 else p[0]
            s += ["c_points A " + gen.pts(p), "c_closed A " + gen.fh(tol), "c_closed_default A"]
        scripts.append(("closed-%d" % i, s))
    scripts.append(("closed-none", ["c_new A", "c_closed A 1", "c_closed_default A", "c_poly A 3"]))
    ctx.validate(scripts)
