-------------------------------- MODULE Files --------------------------------
(* What files hold: STL and BMP as bytes, OBJ as lines, STEP as entities.      *)
(* A file written for an object describes it (…Describes); reading a correct   *)
(* file gives what it holds (…Holds).                                          *)
EXTENDS Image, Mesh, Nurbs, TLC

\* ------------------------------------------------------------ binary numbers
U16(b, o) == b[o] + 256 * b[o + 1]
I32(b, o) == b[o] + 256 * b[o + 1] + 65536 * b[o + 2] + 16777216 * (IF b[o + 3] < 128 THEN b[o + 3] ELSE b[o + 3] - 256)
RECURSIVE RPowBig(_)
RPowBig(k) == IF k < 0 THEN RDiv(One, RPowBig(-k)) ELSE IF k <= 30 THEN RR(2^k) ELSE RR(2^30) \otimes RPowBig(k - 30)
Pow2 == TLCEval([k \in -149 .. 127 |-> RPowBig(k)])
\* the 32 bit floating point number stored at o; not a number if infinite or NaN
F32(b, o) ==
  LET s == b[o + 3] \div 128
      e == (b[o + 3] % 128) * 2 + b[o + 2] \div 128
      m == (b[o + 2] % 128) * 65536 + b[o + 1] * 256 + b[o] IN
  IF e = 255 THEN RR("nan")
  ELSE LET v == IF e = 0 THEN RR(m) \otimes Pow2[-149] ELSE RR(m + 8388608) \otimes Pow2[e - 127] \otimes Pow2[-23] IN
       IF s = 1 THEN RNeg(v) ELSE v
\* f is c rounded to single precision (either way when half way; one unit is tolerated)
Single(c, f) == RLe(RAbs(f \ominus c), RMax(RAbs(c) \otimes Pow2[-23], Pow2[-149]))
\* x is c printed with six significant digits; y is the double nearest to x
Six(c, x)  == RLe(RAbs(x \ominus c), RAbs(c) \otimes RR("50001/10000000000"))
Double(x, y) == RLe(RAbs(y \ominus x), RAbs(x) \otimes Pow2[-52])
P3By(F(_, _), p, q) == F(p[1], q[1]) /\ F(p[2], q[2]) /\ F(p[3], q[3])

\* ------------------------------------------------------------ STL
StlHeader == 84
StlComplete(b) == Len(b) >= StlHeader /\ I32(b, 81) >= 0 /\ I32(b, 81) <= (Len(b) - StlHeader) \div 50
StlVertex(b, i, k) == LET o == StlHeader + 50 * i + 12 * k + 13 IN <<F32(b, o), F32(b, o + 4), F32(b, o + 8)>>  \* triangle i, corner k, from 0
\* the bytes are those of the live triangles of m, nothing else
StlDescribes(b, m) ==
  LET s == LiveSeq(m) IN
  /\ Len(b) = StlHeader + 50 * Len(s)
  /\ I32(b, 81) = Len(s)
  /\ \A i \in 0 .. Len(s) - 1 : \A k \in 0 .. 2 : P3By(Single, Pos(m, s[i + 1][k + 1]), StlVertex(b, i, k))
\* m is what the file holds: three vertices for each triangle
Same(x, y) == x = y
StlHolds(b, m) ==
  LET n == I32(b, 81) IN
  /\ Len(m.v) = 3 * n /\ Len(m.t) = n
  /\ \A i \in 0 .. n - 1 : m.t[i + 1] = <<3 * i, 3 * i + 1, 3 * i + 2>> /\ \A k \in 0 .. 2 : P3By(Same, StlVertex(b, i, k), m.v[3 * i + k + 1])

\* ------------------------------------------------------------ OBJ
\* lines [k: keyword, n: numbers, c: every other token is a number]
Lines(ls, k) == SelectSeq(ls, LAMBDA x : x.k = k)
VAt(ls) == TLCEval(SelectSeq([i \in DOMAIN ls |-> i], LAMBDA i : ls[i].k = "v"))    \* positions of the vertices
IsIndex(x, n) == RLe(One, x) /\ RLe(x, RR(n)) /\ REq(RR(RFloor(x)), x)
Index(x) == RFloor(x)
\* an object of a file: a mesh or a polyline
MeshSeg(m) == [k |-> "mesh", m |-> m, p |-> <<>>]
PolySeg(p) == [k |-> "poly", m |-> EmptyMesh, p |-> p]
SegV(s) == IF s.k = "mesh" THEN s.m.v ELSE s.p
SegC(s) == IF s.k = "mesh" THEN s.m.c ELSE -1
RECURSIVE FlatV(_), FlatF(_, _), FlatL(_, _)
FlatV(segs) == IF segs = <<>> THEN <<>> ELSE [i \in DOMAIN SegV(Head(segs)) |-> [p |-> SegV(Head(segs))[i], c |-> SegC(Head(segs))]] \o FlatV(Tail(segs))
FlatF(segs, n) == IF segs = <<>> THEN <<>>
                  ELSE (IF Head(segs).k = "mesh" THEN Shift(LiveSeq(Head(segs).m), n + 1) ELSE <<>>) \o FlatF(Tail(segs), n + Len(SegV(Head(segs))))
FlatL(segs, n) == IF segs = <<>> THEN <<>>
                  ELSE (IF Head(segs).k = "poly" THEN << [i \in DOMAIN Head(segs).p |-> n + i] >> ELSE <<>>) \o FlatL(Tail(segs), n + Len(SegV(Head(segs))))
Ints(n) == [i \in DOMAIN n |-> Index(n[i])]
Shade(x, v) == Near(x, RDiv(RR(v), RR(255)), RR("1/100000"))
VLine(x, v) == /\ Len(x.n) = (IF v.c = -1 THEN 3 ELSE 6)
               /\ Six(v.p[1], x.n[1]) /\ Six(v.p[2], x.n[2]) /\ Six(v.p[3], x.n[3])
               /\ v.c # -1 => Shade(x.n[4], v.c \div 65536) /\ Shade(x.n[5], (v.c \div 256) % 256) /\ Shade(x.n[6], v.c % 256)
ObjDescribes(ls, segs) ==
  LET V == Lines(ls, "v") F == Lines(ls, "f") L == Lines(ls, "l")
      va == VAt(ls) ev == FlatV(segs) ef == FlatF(segs, 0) el == FlatL(segs, 0) IN
  /\ \A i \in DOMAIN ls : ls[i].k \in {"v", "f", "l", "o", "g", "s"}
  /\ \A i \in DOMAIN ls : ls[i].k \in {"v", "f", "l"} => ls[i].c
  /\ Len(V) = Len(ev) /\ Len(F) = Len(ef) /\ Len(L) = Len(el)
  /\ \A i \in DOMAIN V : VLine(V[i], ev[i])
  /\ \A i \in DOMAIN ls : ls[i].k \in {"f", "l"} => \A k \in DOMAIN ls[i].n : IsIndex(ls[i].n[k], Len(V)) /\ va[Index(ls[i].n[k])] < i
  /\ \A i \in DOMAIN F : Ints(F[i].n) = ef[i]
  /\ \A i \in DOMAIN L : Ints(L[i].n) = el[i]
\* every line is legible and refers to vertices before it
ObjCorrect(ls) == LET va == VAt(ls) IN \A i \in DOMAIN ls :
  /\ ls[i].k = "v" => ls[i].c /\ Len(ls[i].n) >= 3
  /\ ls[i].k = "f" => ls[i].c /\ Len(ls[i].n) = 3 /\ \A k \in 1 .. 3 : IsIndex(ls[i].n[k], Len(va)) /\ va[Index(ls[i].n[k])] < i
ObjHolds(ls, m) ==          \* of a correct file
  LET V == Lines(ls, "v") F == Lines(ls, "f") IN
  /\ Len(m.v) = Len(V) /\ Len(m.t) = Len(F)
  /\ \A i \in DOMAIN V : P3By(Double, V[i].n, m.v[i])
  /\ \A i \in DOMAIN F : m.t[i] = <<Index(F[i].n[1]) - 1, Index(F[i].n[2]) - 1, Index(F[i].n[3]) - 1>>

\* ------------------------------------------------------------ BMP
BmpBpp(b) == U16(b, 29)
BmpW(b) == I32(b, 19)
BmpRow(b) == ((BmpW(b) * (BmpBpp(b) \div 8) + 3) \div 4) * 4
BmpOffset(b) == I32(b, 11)
BmpTopDown(b) == b[26] >= 128
BmpH(b) == IF BmpTopDown(b) THEN -I32(b, 23) ELSE I32(b, 23)
\* the file holds all the pixels its header announces, uncompressed
BmpReadable(b) ==
  /\ Len(b) >= 54 /\ b[1] = 66 /\ b[2] = 77
  /\ BmpBpp(b) \in {8, 24, 32}
  /\ \/ I32(b, 31) = 0
     \/ I32(b, 31) = 3 /\ BmpBpp(b) = 32
  /\ BmpW(b) \in 1 .. Len(b)
  /\ <<b[23], b[24], b[25], b[26]>> # <<0, 0, 0, 128>>
  /\ BmpH(b) \in 1 .. Len(b)
  /\ BmpOffset(b) \in 54 .. Len(b)
  /\ BmpRow(b) <= (Len(b) - BmpOffset(b)) \div BmpH(b)
\* ... and the rest of the header agrees with it
BmpCorrect(b) == BmpReadable(b) /\ I32(b, 3) = Len(b) /\ I32(b, 15) \in {40, 108, 124} /\ U16(b, 27) = 1
BmpByte(b, x, y, k) ==             \* plane k of pixel (x, y): red, green, blue, alpha
  LET line == IF BmpTopDown(b) THEN y ELSE BmpH(b) - 1 - y
      n == BmpBpp(b) \div 8
      j == IF k = 3 \/ n = 1 THEN k ELSE 2 - k IN b[BmpOffset(b) + line * BmpRow(b) + x * n + j + 1]
BmpHolds(b, s) ==
  /\ IShape(s, BmpW(b), BmpH(b), BmpBpp(b) \div 8)
  /\ \A x \in 0 .. s.w - 1 : \A y \in 0 .. s.h - 1 : \A k \in 0 .. s.p - 1 : s.d[IAt(s, x, y, k)] = BmpByte(b, x, y, k)
BmpSupported(s) == s.w > 0 /\ s.h > 0 /\ s.p \in {1, 3, 4}
BmpDescribes(b, s) ==
  /\ BmpCorrect(b)
  /\ I32(b, 15) = 40 /\ I32(b, 31) = 0
  /\ BmpW(b) = s.w /\ BmpH(b) = s.h /\ BmpBpp(b) = 8 * s.p
  /\ Len(b) = BmpOffset(b) + BmpRow(b) * s.h
  /\ I32(b, 35) \in {0, BmpRow(b) * s.h}
  /\ s.p = 1 => /\ BmpOffset(b) >= 54 + 1024
                /\ I32(b, 47) \in {0, 256}
                /\ \A i \in 0 .. 255 : b[55 + 4 * i] = i /\ b[56 + 4 * i] = i /\ b[57 + 4 * i] = i
  /\ \A x \in 0 .. s.w - 1 : \A y \in 0 .. s.h - 1 : \A k \in 0 .. s.p - 1 :
        BmpByte(b, x, y, k) = s.d[IAt(s, x, y, k)] \/ (k = 3 /\ BmpByte(b, x, y, k) = 0)

\* ------------------------------------------------------------ STEP
\* entities [id, p: parts [k: keyword, a: values]]; values [t: type, v], t in
\* r(eference) i(nteger) n(umber) e(num) s(tring) l(ist) u(nset)
Part(e, k) == LET c == SelectSeq(e.p, LAMBDA x : x.k = k) IN IF Len(c) = 1 THEN c[1] ELSE [k |-> "?", a |-> <<>>]
IsA(e, k) == \E i \in DOMAIN e.p : e.p[i].k = k
Plain(e, k) == Len(e.p) = 1 /\ e.p[1].k = k
IsSurfaceEntity(e) == IsA(e, "B_SPLINE_SURFACE_WITH_KNOTS")
ArgsAre(e, types) == Len(e.p) = 1 /\ Len(e.p[1].a) = Len(types) /\ \A i \in DOMAIN types : e.p[1].a[i].t \in types[i]
Arg(e, i) == e.p[1].a[i].v
RECURSIVE RefsIn(_)
RefsIn(s) == UNION {IF s[i].t = "r" THEN {s[i].v} ELSE IF s[i].t = "l" THEN RefsIn(s[i].v) ELSE {} : i \in DOMAIN s}
Refs(e) == UNION {RefsIn(e.p[i].a) : i \in DOMAIN e.p}
\* the kind of entity a keyword's reference may name
Kind(k) == CASE k = "ADVANCED_FACE" -> {"B_SPLINE_SURFACE_WITH_KNOTS"}
             [] k = "CLOSED_SHELL" -> {"ADVANCED_FACE"}
             [] k = "MANIFOLD_SOLID_BREP" -> {"CLOSED_SHELL"}
             [] k = "ADVANCED_BREP_SHAPE_REPRESENTATION" -> {"MANIFOLD_SOLID_BREP"}
             [] k = "SHAPE_REPRESENTATION_RELATIONSHIP" -> {"SHAPE_REPRESENTATION", "ADVANCED_BREP_SHAPE_REPRESENTATION"}
             [] k = "SHAPE_DEFINITION_REPRESENTATION" -> {"PRODUCT_DEFINITION_SHAPE", "SHAPE_REPRESENTATION"}
             [] k = "PRODUCT_DEFINITION_SHAPE" -> {"PRODUCT_DEFINITION"}
             [] k = "PRODUCT_DEFINITION" -> {"PRODUCT_DEFINITION_CONTEXT", "PRODUCT_DEFINITION_FORMATION"}
             [] k = "B_SPLINE_SURFACE" -> {"CARTESIAN_POINT"}
             [] OTHER -> {}
RECURSIVE Flat(_)
Flat(ll) == IF ll = <<>> THEN <<>> ELSE Head(ll) \o Flat(Tail(ll))
Repeat(v, n) == [i \in 1 .. n |-> v]
\* knots written as distinct values with multiplicities
Expanded(vals, mults) == Flat([i \in DOMAIN mults |-> Repeat(vals[i], mults[i])])
Num(v) == IF v.t \in {"i", "n"} THEN RR(v.v) ELSE RR("nan")
AreNums(l) == l.t = "l" /\ \A i \in DOMAIN l.v : l.v[i].t \in {"i", "n"}
KnotsDescribed(mults, vals, knots) ==
  /\ AreNums(mults) /\ AreNums(vals) /\ Len(mults.v) = Len(vals.v)
  /\ \A i \in DOMAIN mults.v : mults.v[i].t = "i" /\ mults.v[i].v >= 1
  /\ LET x == Expanded([i \in DOMAIN vals.v |-> Num(vals.v[i])], [i \in DOMAIN mults.v |-> mults.v[i].v]) IN
     Len(x) = Len(knots) /\ \A i \in DOMAIN x : Six(knots[i], x[i])
  /\ \A i, j \in DOMAIN vals.v : i < j => RLt(Num(vals.v[i]), Num(vals.v[j]))
\* a list of nu lists of nv values
IsGrid(l, nu, nv, types) == /\ l.t = "l" /\ Len(l.v) = nu
                            /\ \A i \in DOMAIN l.v : l.v[i].t = "l" /\ Len(l.v[i].v) = nv /\ \A j \in DOMAIN l.v[i].v : l.v[i].v[j].t \in types
Flag(c) == IF c THEN "T" ELSE "F"
SurfaceDescribed(e, s, point(_)) ==
  LET B == Part(e, "B_SPLINE_SURFACE").a K == Part(e, "B_SPLINE_SURFACE_WITH_KNOTS").a W == Part(e, "RATIONAL_B_SPLINE_SURFACE").a IN
  /\ \A k \in {"BOUNDED_SURFACE", "GEOMETRIC_REPRESENTATION_ITEM", "REPRESENTATION_ITEM", "SURFACE"} : IsA(e, k)
  /\ Len(B) = 7 /\ B[1] = [t |-> "i", v |-> s.du] /\ B[2] = [t |-> "i", v |-> s.dv]
  /\ IsGrid(B[3], s.nu, s.nv, {"r"})
  /\ \A i \in 1 .. s.nu : \A j \in 1 .. s.nv : P3By(Six, s.p[i + s.nu * (j - 1)], point(B[3].v[i].v[j].v))
  /\ B[5] = [t |-> "e", v |-> Flag(s.cu)] /\ B[6] = [t |-> "e", v |-> Flag(s.cv)]
  /\ Len(K) = 5 /\ KnotsDescribed(K[1], K[3], s.ku) /\ KnotsDescribed(K[2], K[4], s.kv)
  /\ Len(W) = 1 /\ IsGrid(W[1], s.nu, s.nv, {"i", "n"})
  /\ \A i \in 1 .. s.nu : \A j \in 1 .. s.nv : Six(s.w[i + s.nu * (j - 1)], Num(W[1].v[i].v[j]))
PointIn(e) == IF Plain(e, "CARTESIAN_POINT") /\ Len(e.p[1].a) = 2 /\ AreNums(e.p[1].a[2]) /\ Len(Arg(e, 2)) = 3
              THEN [k \in 1 .. 3 |-> Num(Arg(e, 2)[k])] ELSE <<RR("nan"), RR("nan"), RR("nan")>>
\* the entities by their numbers
RECURSIVE Where(_, _, _, _)
Where(s, x, a, b) == IF a >= b THEN a ELSE LET m == (a + b) \div 2 IN IF s[m].id < x THEN Where(s, x, m + 1, b) ELSE Where(s, x, a, m)
ById(d) == LET s == TLCEval(SortSeq(d, LAMBDA x, y : x.id < y.id)) IN
           TLCEval([x \in {d[i].id : i \in DOMAIN d} |-> s[Where(s, x, 1, Len(s))]])
Entities(d, k) == SelectSeq(d, LAMBDA e : IsA(e, k))
RefArg(e) == RefsIn(e.p[1].a)
\* each entity of kind k refers to exactly one (or a list) of the next kind, and each of these is referred to once
OneToOne(d, up, down) == \A x \in Range(Entities(d, down)) : Cardinality({y \in Range(Entities(d, up)) : x.id \in RefArg(y)}) = 1
StepSound(c) ==
  /\ c.ok
  /\ \E i \in DOMAIN c.h : c.h[i].k = "FILE_SCHEMA" /\ Len(c.h[i].a) = 1 /\ c.h[i].a[1].t = "l" /\ Len(c.h[i].a[1].v) >= 1
  /\ LET d == c.d ids == TLCEval({d[i].id : i \in DOMAIN d})
         byId == ById(d) IN
     /\ Cardinality(ids) = Len(d)                                        \* defined once
     /\ \A i \in DOMAIN d : \A r \in Refs(d[i]) : r \in ids              \* references resolve ...
     /\ \A i \in DOMAIN d : \A k \in DOMAIN d[i].p : \A r \in RefsIn(d[i].p[k].a) :
          \E q \in Kind(d[i].p[k].k) : IsA(byId[r], q)                   \* ... to the right kind
     /\ \A i \in DOMAIN d : LET e == d[i] IN
          CASE Plain(e, "CARTESIAN_POINT") -> ArgsAre(e, <<{"s"}, {"l"}>>) /\ Len(Arg(e, 2)) = 3
            [] Plain(e, "ADVANCED_FACE") -> ArgsAre(e, <<{"s"}, {"l"}, {"r"}, {"e"}>>) /\ Arg(e, 4) = "T"
            [] Plain(e, "CLOSED_SHELL") -> ArgsAre(e, <<{"s"}, {"l"}>>) /\ Len(Arg(e, 2)) >= 1
            [] Plain(e, "MANIFOLD_SOLID_BREP") -> ArgsAre(e, <<{"s"}, {"r"}>>)
            [] Plain(e, "ADVANCED_BREP_SHAPE_REPRESENTATION") -> Len(e.p[1].a) = 3 /\ RefArg(e) # {}
            [] Plain(e, "SHAPE_REPRESENTATION_RELATIONSHIP") -> Len(e.p[1].a) = 4 /\ e.p[1].a[3].t = "r" /\ e.p[1].a[4].t = "r"
                 /\ IsA(byId[Arg(e, 3)], "SHAPE_REPRESENTATION") /\ IsA(byId[Arg(e, 4)], "ADVANCED_BREP_SHAPE_REPRESENTATION")
            [] Plain(e, "SHAPE_DEFINITION_REPRESENTATION") -> ArgsAre(e, <<{"r"}, {"r"}>>) /\ IsA(byId[Arg(e, 1)], "PRODUCT_DEFINITION_SHAPE") /\ IsA(byId[Arg(e, 2)], "SHAPE_REPRESENTATION")
            [] Plain(e, "PRODUCT_DEFINITION_SHAPE") -> RefArg(e) # {}
            [] Plain(e, "PRODUCT_DEFINITION") -> RefArg(e) # {}
            [] OTHER -> TRUE
     /\ OneToOne(d, "ADVANCED_FACE", "B_SPLINE_SURFACE_WITH_KNOTS") /\ OneToOne(d, "CLOSED_SHELL", "ADVANCED_FACE")
     /\ OneToOne(d, "MANIFOLD_SOLID_BREP", "CLOSED_SHELL") /\ OneToOne(d, "ADVANCED_BREP_SHAPE_REPRESENTATION", "MANIFOLD_SOLID_BREP")
     /\ OneToOne(d, "SHAPE_REPRESENTATION_RELATIONSHIP", "ADVANCED_BREP_SHAPE_REPRESENTATION")
     /\ \A q \in {"SHAPE_DEFINITION_REPRESENTATION", "SHAPE_REPRESENTATION", "PRODUCT_DEFINITION"} : \E i \in DOMAIN d : Plain(d[i], q)
\* the surfaces of the file are those written, in order
StepDescribes(c, surfs) ==
  /\ StepSound(c)
  /\ LET E == Entities(c.d, "B_SPLINE_SURFACE_WITH_KNOTS")
         ids == TLCEval({c.d[i].id : i \in DOMAIN c.d})
         es == ById(c.d) pts == TLCEval([x \in ids |-> PointIn(es[x])])
         at(x) == IF x \in ids THEN pts[x] ELSE <<RR("nan"), RR("nan"), RR("nan")>> IN
     /\ Len(E) = Len(surfs)
     /\ \A i \in DOMAIN E : SurfaceDescribed(E[i], surfs[i], at)
     /\ Len(Entities(c.d, "ADVANCED_FACE")) = Len(surfs)
     /\ Len(Entities(c.d, "CARTESIAN_POINT")) >= (IF surfs = <<>> THEN 0 ELSE 1)
=============================================================================
