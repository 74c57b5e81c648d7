-------------------------------- MODULE Bezier --------------------------------
(* Quadratic rational Bezier triangles [p |-> corners, c |-> control points of *)
(* edges 12, 13, 23, w |-> the six weights, e |-> largest coordinate met so    *)
(* far (for tolerances)], meshes of them, Bernstein polynomials, and the       *)
(* control points of point-normal triangles.                                   *)
EXTENDS MeshOps

O3 == <<Zero, Zero, Zero>>
PExt(s) == MaxF(LAMBDA i : PMax(s[i]), 1, Len(s))
NoPatch == [p |-> <<O3, O3, O3>>, c |-> <<O3, O3, O3>>, w |-> <<One, One, One, One, One, One>>, e |-> Zero]
Middle(a, b) == VScale(RR("1/2"), VAdd(a, b))
Flat(x) == <<Middle(x[1], x[2]), Middle(x[1], x[3]), Middle(x[2], x[3])>>
Grown(b) == [b EXCEPT !.e = RMax(@, RMax(PExt(b.p), PExt(b.c)))]
SetPoints(b, x)  == Grown([b EXCEPT !.p = x, !.c = Flat(x)])
SetControl(b, x) == Grown([b EXCEPT !.c = x])
SetWeights(b, x) == [b EXCEPT !.w = x]
FlatPatch(x) == SetPoints(NoPatch, x)
\* the Bernstein terms at s + u + v = 1
Terms(s, u, v) == <<RSq(s), RSq(u), RSq(v), RR(2) \otimes s \otimes u, RR(2) \otimes s \otimes v, RR(2) \otimes u \otimes v>>
Points6(b) == b.p \o b.c
BEval(b, s, u, v) ==
  LET t == Terms(s, u, v) P == Points6(b)
      k == [i \in 1 .. 6 |-> t[i] \otimes b.w[i]]
      d == SumF(LAMBDA i : k[i], 1, 6) IN
  VScale(One \oslash d, VSumF(LAMBDA i : VScale(k[i], P[i]), 1, 6))
BEps(b) == RR("1e-9") \otimes b.e
Probes3 == LET h == RR("1/2") q == RR("1/4") IN
  << <<One, Zero, Zero>>, <<Zero, One, Zero>>, <<Zero, Zero, One>>, <<h, h, Zero>>, <<h, Zero, h>>, <<Zero, h, h>>, <<q, q, h>>, <<h, q, q>> >>
ProbePoint(b, i) == BEval(b, Probes3[i][1], Probes3[i][2], Probes3[i][3])
\* the eight probe points recorded for a patch are those of b
Shows(q, b) == Len(q) = 8 /\ \A i \in 1 .. 8 : PNear(q[i], ProbePoint(b, i), BEps(b))
\* the patch with unit weights that has the corner and middle probes q
FromProbes(q) == LET c(i, j, k) == VSub(VScale(RR(2), q[i]), Middle(q[j], q[k])) IN
  Grown([NoPatch EXCEPT !.p = <<q[1], q[2], q[3]>>, !.c = <<c(4, 1, 2), c(5, 1, 3), c(6, 2, 3)>>])

\* ------------------------------------------------------- sampling
\* lattice point <<i, j>> of a patch sampled n times: at weights (n - i - j, i, j) / n of the corners
LatticeAt(b, u, n) == BEval(b, RDiv(RR(n - u[1] - u[2]), RR(n)), RDiv(RR(u[1]), RR(n)), RDiv(RR(u[2]), RR(n)))
Lattice(n) == {<<i, j>> \in (0 .. n) \X (0 .. n) : i + j <= n}
NLat(n) == ((n + 1) * (n + 2)) \div 2
\* mesh o has, after v0 vertices and t0 triangles, the samples of b; vl names the lattice point of each new vertex
BSampled(b, n, v0, t0, vl, o) ==
  /\ Len(vl) = NLat(n) /\ Range(vl) = Lattice(n)
  /\ \A k \in DOMAIN vl : PNear(o.v[v0 + k], LatticeAt(b, vl[k], n), BEps(b))
  /\ \A k \in 1 .. n * n : o.t[t0 + k] # <<>> /\ \A j \in 1 .. 3 : o.t[t0 + k][j] - v0 + 1 \in DOMAIN vl
  /\ LET x(k) == [j \in 1 .. 3 |-> vl[o.t[t0 + k][j] - v0 + 1]]
         S == {x(k) : k \in 1 .. n * n} IN Subdivision(S, n)
\* the corners of all patches as a mesh of one triangle each
CornerMesh(s) == [c |-> -1, v |-> [i \in 1 .. 3 * Len(s) |-> s[((i - 1) \div 3) + 1].p[((i - 1) % 3) + 1]], t |-> [k \in DOMAIN s |-> <<3 * k - 3, 3 * k - 2, 3 * k - 1>>]]
\* the middle of the edge between corners i and j
EdgeMid(b, i, j) == ProbePoint(b, IF {i, j} = {1, 2} THEN 4 ELSE IF {i, j} = {1, 3} THEN 5 ELSE 6)

\* ------------------------------------------------------- Bernstein polynomials
Power(x, n) == IF n = 0 THEN One ELSE IF n = 1 THEN x ELSE IF n = 2 THEN x \otimes x ELSE x \otimes x \otimes x
Choose(n, i) == IF i = 0 \/ i = n THEN 1 ELSE n
Bernstein(n, i, u) == RR(Choose(n, i)) \otimes Power(u, i) \otimes Power(One \ominus u, n - i)

\* ------------------------------------------------------- point-normal triangles
NoCubic == [p |-> <<O3, O3, O3>>, c |-> <<O3, O3, O3, O3, O3, O3>>, m |-> O3]
Third == RR("1/3")
\* control point next to a on edge a - b, when the normal at a is n: the third of the edge, brought into the tangent plane
Tangent(a, b, n) == VScale(Third, VSub(VAdd(VScale(RR(2), a), b), VScale(Dot(VSub(b, a), n), n)))
PNormals(x, n) ==
  LET c == <<Tangent(x[1], x[2], n[1]), Tangent(x[2], x[1], n[2]), Tangent(x[1], x[3], n[1]), Tangent(x[3], x[1], n[3]), Tangent(x[2], x[3], n[2]), Tangent(x[3], x[2], n[3])>>
      e == VScale(RR("1/6"), VSumF(LAMBDA i : c[i], 1, 6))
      v == VScale(Third, VSumF(LAMBDA i : x[i], 1, 3)) IN
  [c |-> c, m |-> VAdd(e, VScale(RR("1/2"), VSub(e, v)))]
=============================================================================
