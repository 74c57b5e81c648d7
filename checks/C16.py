"""C16: extrude, rule and revolve build the surfaces they are named for."""
from lib import gen, ngen
TECHNIQUE = "TLA+ definitions of extruded, ruled and revolved surfaces as relations between the input curves and the points of the result; recorded constructions over random and model-generated curves checked by TLC in exact arithmetic"
from checks.C13 import MC

def run(ctx):
    rng, scripts = ctx.rng, []
    h = gen.dedup_prefixes(ctx.model("NurbsMC", MC % 1))
    def dirty():
        if rng.random() < .5: return ngen.surface(rng, "S")[0] + rng.choice([[], ["n_closed_u S 1", "n_closed_v S 1"]])
        return ["n_new S"]
    for i, c in enumerate(h):
        scripts.append(("mc-%d" % i, c + dirty() + ["n_extrude S A 1 2 -3", "n_revolve S A", "n_ruled S A A"]))
    for i in range(ctx.n(100, 1500)):
        c, d, n, k = ngen.curve(rng, "A")
        s = c + dirty()
        x = i % 3
        if x == 0:
            for _ in range(rng.randint(1, 2)): s.append("n_extrude S A " + gen.pt(rng.choice([[0, 0, 1], [0, 0, 0], gen.rpoint(rng)])))
        elif x == 1: s.append("n_revolve S A")
        else:
            if rng.random() < .6:
                c2 = ["c_copy B A", "c_points B " + gen.pts(ngen.points(rng, n)), "c_weights B " + gen.ds(ngen.weights(rng, n))]
            else: c2 = ngen.curve(rng, "B", d=rng.choice([d, d, None]), n=rng.choice([n, None]) if d <= 5 else None)[0] if False else ngen.curve(rng, "B")[0]
            s += c2 + ["n_ruled S A B", "n_ruled S B A"]
        s += [y for y in ["c_eval A " + gen.ds(ngen.params(rng, d, k, 3))] if rng.random() < .5]
        if rng.random() < .3: s += ["c_move A 0 1 1 1", "n_eval S 1 0.5 1 0.5"] if x < 2 else []
        scripts.append(("rand-%d" % i, s))
    for i in range(ctx.n(6, 60)):            # long profiles
        d = rng.choice([1, 2, 3, 6]); n = rng.choice([15, 24, 40])
        a, b = ngen.curve(rng, "A", d=d, n=n), ["c_copy B A", "c_points B " + gen.pts(ngen.points(rng, n))]
        scripts.append(("long-%d" % i, a[0] + b + [rng.choice(["n_extrude S A 1 2 3", "n_revolve S A", "n_ruled S A B"])]))
    for i in range(ctx.n(30, 200)):          # same degree, other structure; closed profiles; factory curves
        d = rng.randint(1, 3); n = d + rng.randint(1, 4)
        a = ngen.curve(rng, "A", d=d, n=n)[0]; b = ngen.curve(rng, "B", d=d, n=n)[0]
        r = gen.fh(rng.choice([1, 0.3, 7]))
        scripts.append(("mixed-%d" % i, a + b + ["n_ruled S A B", "c_circle C " + r, "n_extrude S C 0 0 2", "n_revolve S C", "c_circle D 2", "n_ruled S C D",
                        "c_from_points E %s %d" % (gen.pts(ngen.points(rng, n)), d), "n_revolve S E", "n_extrude S E 1 0 0", "n_ruled S E A"]))
    for i in range(ctx.n(40, 400)):          # profiles whose ends nearly meet, at every distance
        def nearly(m):
            d = rng.randint(1, 3); n = d + rng.randint(2, 4)
            p = ngen.points(rng, n); e = 10 ** rng.uniform(-9, -1); j = rng.randrange(3)
            p[-1] = [x + (e if k == j else 0) for k, x in enumerate(p[0])]
            return d, n, p
        d, n, p = nearly("A")
        s = ngen.curve(rng, "A", d=d, n=n, pts=p)[0]
        q = [list(x) for x in ngen.points(rng, n)]; q[-1] = list(q[0]); q[-1][rng.randrange(3)] += rng.choice([0, 10 ** rng.uniform(-9, -1)])
        s += ["c_copy B A", "c_points B " + gen.pts(q)]
        x = ["n_extrude S A 1 2 3", "n_revolve S A", "n_ruled S A B", "n_ruled S B A", "n_revolve S B"]
        scripts.append(("near-closed-%d" % i, s + dirty() + rng.sample(x, 3)))
    ctx.validate(scripts)
