"""C23: malformed or truncated files never crash or yield corrupt objects."""
from lib import gen, fgen
TECHNIQUE = "TLA+ specification of which files are complete and what they hold (TLC: every file one or two faults make of a small STL or BMP file; what is complete can be read inside the file); every such file, every cut and replacement in OBJ text and arbitrary contents loaded by the instrumented code, outcome and object judged by TLC"
CFG = """SPECIFICATION Spec
CONSTANTS What = "%s" Depth = %d Emit = %d
INVARIANTS Safe Whole CutIsRefused EmitState
"""
def batch(scripts, name, steps, k):
    for i in range(0, len(steps), k): scripts.append(("%s-%d" % (name, i // k), sum(steps[i:i + k], [])))

OBJ = ["v 0 0 0\nv 1.5 -2 0.25\nv -3 1e-5 7\n\nf 1 2 3\nf 3 2 1\n", "# c\nv 1 2 3 1 0.5 0\nv 4 5 6 1 0.5 0\nv 0 0 1 1 0.5 0\nv 2 2 2 1 0.5 0\nvn 0 0 1\nf 1 2 3\nl 1 2 3 4 \nf 4 3 2\n"]
BADTOK = ["0", "-1", "4", "5", "99", "2147483647", "2147483648", "-2147483648", "99999999999999999999", "x", "", "1/2/3", "1//3", "1.5", "nan", "inf", "-", "1e999", "0x10", "1 1", "\x00", "\xff", "%s%n", "v", "f"]

def run(ctx):
    rng, scripts = ctx.rng, []
    for kind, depth in (("S", 2), ("B3", ctx.n(1, 2)), ("B4", ctx.n(1, 2))):
        h = [x[0] for x in ctx.model("DamageMC", CFG % (kind, depth, 1), workers=8)]
        if not ctx.quick or kind == "S": h += gen.sample(rng, [x[0] for x in ctx.model("DamageMC", CFG % (kind, 2, 2), workers=8)], ctx.n(300, 8000))
        k = kind[0]
        if k == "B" and ctx.quick: h = gen.sample(rng, h, 420)
        if k == "S" and ctx.quick: h = gen.sample(rng, h, 1000)
        batch(scripts, "mc-" + kind, [["f_put %s1 %s" % (k, x), "f_load %s %s1 A" % (k, k)] for x in h], 12)
    # files the code wrote, damaged; targets that held something
    for i in range(ctx.n(30, 300)):
        k = rng.choice("SB")
        s = [fgen.mesh(rng, "A", nv=5, nt=rng.randint(1, 4)), fgen.mesh(rng, "C"), "f_save S S1 A"] if k == "S" else [fgen.image(rng, "A"), fgen.image(rng, "C"), "f_save B B1 A"]
        for _ in range(rng.randint(2, 5)):
            s.append("f_dup %s2 %s1" % (k, k))
            for _ in range(rng.randint(1, 2)):
                r = rng.randrange(4)
                if r == 0: s.append("f_cut %s2 %d" % (k, rng.choice([0, 1, 2, 10, 53, 54, 55, 79, 80, 83, 84, 85, 133, 134, -1, -2, -4, -49, -50, -51, rng.randrange(300)])))
                elif r == 1: s.append("f_poke %s2 %d %s" % (k, rng.choice([80, 81, 82, 83] if k == "S" else [0, 1, 2, 10, 13, 14, 18, 19, 20, 21, 22, 23, 24, 25, 26, 28, 29, 30, 33]), gen.iv([rng.choice([0, 1, 4, 8, 24, 127, 128, 255, rng.randrange(256)])])))
                elif r == 2: s.append("f_poke %s2 %d %s" % (k, rng.choice([80] if k == "S" else [10, 18, 22, 28, 30]), gen.iv(rng.choice([[255, 255, 255, 127], [0, 0, 0, 128], [255, 255, 255, 255], [0, 0, 0, 64], [0, 0, 1, 0], [0, 128, 0, 0]]))))
                else: s.append("f_add %s2 %s" % (k, gen.iv([rng.randrange(256) for _ in range(rng.choice([1, 49, 50]))])))
            s.append("f_load %s %s2 %s" % (k, k, rng.choice("CCD")))
        scripts.append(("saved-%d" % i, s))
    # OBJ text: cut everywhere, every character and every token replaced
    steps = []
    for t in OBJ:
        for n in range(len(t)): steps.append(t[:n])
        for n in range(len(t)):
            for c in (" ", "\n", "0", "9", "-", ".", "e", "x") if not ctx.quick else rng.sample([" ", "\n", "0", "9", "-", ".", "e", "x", "\x00", "\t"], 2): steps.append(t[:n] + c + t[n + 1:])
        parts = []
        import re
        for m in re.finditer(r"[^ \n]+", t):
            for b in (BADTOK if not ctx.quick else rng.sample(BADTOK, 5)): steps.append(t[:m.start()] + b + t[m.end():])
            steps.append(t[:m.start()] + t[m.end():])
        lines = t.split("\n")
        for n in range(len(lines)):
            steps.append("\n".join(lines[:n] + lines[n + 1:]))
            steps.append("\n".join(lines[:n] + [lines[n]] * 2 + lines[n + 1:]))
            for m in range(n): steps.append("\n".join(lines[:m] + [lines[n]] + lines[m + 1:n] + [lines[m]] + lines[n + 1:]))
    steps += ["f 1 1 1\n", "f\n", "v\n", "v 1 2\n", "f 1 2 3\nv 0 0 0\nv 1 1 1\nv 2 2 2\n", " v 1 2 3\n\tf 1 1 1\n", "\n" * 50, "f " * 300, "v " + "9" * 400 + " 1 2\n", "v 1 2 3\r\nf 1 1 1\r\n", "\r\r\r", "v 1 2 3 f 1 1 1"]
    batch(scripts, "obj", [["f_hex O1 " + ("".join("%02x" % (ord(c) & 255) for c in x) or "0a"), "f_load O O1 A"] for x in steps], 25)
    # arbitrary contents, the wrong kind, nothing at all
    for i in range(ctx.n(40, 600)):
        k = rng.choice("SBO")
        r = rng.randrange(6)
        s = [fgen.mesh(rng, "A"), fgen.image(rng, "A")]
        p = k + "1"
        if r == 0: s += ["f_load %s @none A" % k, "f_load %s @dir A" % k, "f_load %s %s A" % (k, p)]
        elif r == 1: s += ["f_mkdir " + p, "f_load %s %s A" % (k, p)]
        elif r == 2: s += ["f_put %s 0" % p, "f_load %s %s A" % (k, p), "f_del " + p, "f_load %s %s A" % (k, p)]
        elif r == 3:
            n = rng.choice([1, 10, 54, 84, 100, 400])
            b = [rng.randrange(256) for _ in range(n)]
            if k == "B": b[:2] = [66, 77][:n]
            if k == "S" and n >= 84: b[80:84] = [rng.choice([0, 1, 6, 255]), 0, 0, rng.choice([0, 0, 127, 128, 255])]
            s += ["f_put %s %s" % (p, gen.iv(b)), "f_load %s %s A" % (k, p)]
        elif r == 4:
            words = ["v", "f", "l", "#", "1", "2", "-3", "0.5", "\n", "\n", "1/1", "vn", "o"]
            s += ["f_hex O1 " + fgen.hexs(" ".join(rng.choice(words) for _ in range(60))), "f_load O O1 A"]
        else:
            s += ["f_put S1 " + fgen.b(fgen.stl(rng, 2, finite=False)), "f_load S S1 A", "f_put B1 " + fgen.b(fgen.bmp(rng, 3, 2, 24)), "f_load B B1 A",
                  "f_poke B1 28 1 %d" % rng.choice([1, 4, 16, 48, 0, 255]), "f_load B B1 A"]
        scripts.append(("any-%d" % i, s))
    ctx.validate(scripts)
