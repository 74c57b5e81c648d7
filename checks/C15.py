"""C15: a surface evaluates to its definition; refining it does not move it."""
from lib import gen, ngen
from checks.C13 import MC
from checks.C14 import walk
TECHNIQUE = "TLA+ tensor-product B-spline definition and refinement model, model-checked exhaustively over insertion/elevation sequences in both directions; explored and random histories (setters in every order, refinement, evaluation) replayed on the code and checked by TLC against the definition"

def run(ctx):
    rng, scripts = ctx.rng, []
    h = gen.dedup_prefixes(ctx.model("NurbsMC", MC.replace('"curve"', '"surface"') % ctx.n(2, 3)))
    for i, c in enumerate(gen.sample(rng, h, ctx.n(150, 2000))): scripts.append(("mc-%d" % i, c))
    for i in range(ctx.n(120, 2000)):
        s = []
        for _ in range(rng.choice([1, 1, 2])):
            c, U, V = ngen.surface(rng, "A")
            s += c + [ngen.evals(rng, "A", U, V, 5)]
            x = rng.randrange(6)
            n = U[1] * V[1]
            if x == 0: s.append("n_move A %d %s" % (rng.randrange(n), gen.pt(gen.rpoint(rng, 3))))
            elif x == 1: s.append("n_weight A %d %s" % (rng.randrange(n), gen.fh(rng.choice([0.5, 3, 1.25]))))
            elif x == 2: s += ["n_copy B A", "n_equal A", ngen.evals(rng, "B", U, V, 3), "n_assign A B"]
            elif x == 3: s += ["n_closed_%s A 1" % rng.choice("uv")]
            elif x == 4: s += ["n_equal A"]
            if x != 3: s.append(ngen.evals(rng, "A", U, V, 4))
            if rng.random() < .1: s.append(rng.choice(["n_clear A", "n_new A"]))
        scripts.append(("eval-%d" % i, s))
    for i in range(ctx.n(25, 300)):          # as for curves: torn, partly clamped, piecewise constant, null weights
        U, V = [(d, d + rng.randint(1, 4)) for d in (rng.choice([0, 1, 2, 3]), rng.choice([0, 1, 1, 2]))]
        ku, kv = ngen.wild_knots(rng, *U), ngen.wild_knots(rng, *V)
        n, w = U[1] * V[1], rng.random() < .3
        W = ngen.weights(rng, n)
        if w: W = [0 if rng.random() < .3 and (x % U[1]) % 2 and (x // U[1]) % 2 and U[0] and V[0] else W[x] for x in range(n)]
        c = ["n_degree A %d %d" % (U[0], V[0]), "n_knots_u A " + gen.ds(ku), "n_knots_v A " + gen.ds(kv), "n_points A %s %d %d" % (gen.pts(ngen.points(rng, n)), U[1], V[1]), "n_weights A " + gen.ds(W)]
        rng.shuffle(c)
        ku, kv = ngen.unit_knots(ku), ngen.unit_knots(kv)
        u, v = ngen.wild_params(rng, *U, ku, True), ngen.wild_params(rng, *V, kv, True)
        if w:
            u = [x for x in u if x not in ku] or [ku[U[0]] + 0.37 * (min(y for y in ku if y > ku[U[0]]) - ku[U[0]])]
            v = [x for x in v if x not in kv] or [kv[V[0]] + 0.37 * (min(y for y in kv if y > kv[V[0]]) - kv[V[0]])]
        m = min(len(u), len(v))
        scripts.append(("wild-%d" % i, c + ["n_eval A %s %s" % (gen.ds(u[:m]), gen.ds(v[:m]))]))
    for i in range(ctx.n(8, 80)):            # many control points
        c, U, V = ngen.surface(rng, "A", du=rng.choice([1, 2, 3, 5]), dv=rng.choice([1, 2, 3]), nu=rng.choice([7, 9, 12]), nv=rng.choice([5, 8, 11]))
        s = c + [ngen.evals(rng, "A", U, V, 4)]
        x = rng.randrange(2)
        w, d2, k2 = walk(rng, (U, V)[x][0], (U, V)[x][2], 1, "n_insert_%s A %%s" % "uv"[x], "n_elevate_%s A" % "uv"[x])
        scripts.append(("many-%d" % i, s + w))
    for i in range(ctx.n(90, 1500)):
        c, U, V = ngen.surface(rng, "A", du=rng.choice([1, 2, 3, 4]), dv=rng.choice([1, 2, 2, 3, 4]))
        s = list(c)
        if rng.random() < .3: s.append("n_closed_u A 1")
        if rng.random() < .3: s.append("n_closed_v A 1")
        d, k = [U[0], V[0]], [U[2], V[2]]
        for _ in range(rng.randint(1, 4)):
            x = rng.randrange(2)
            w, d[x], k[x] = walk(rng, d[x], k[x], 1, "n_insert_%s A %%s" % "uv"[x], "n_elevate_%s A" % "uv"[x])
            s += w
        s.append(ngen.evals(rng, "A", (d[0], 0, k[0]), (d[1], 0, k[1]), 3))
        scripts.append(("walk-%d" % i, s))
    ctx.validate(scripts)
