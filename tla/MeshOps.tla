------------------------------ MODULE MeshOps ------------------------------
(* Operations over whole meshes, each given by the relation between the mesh  *)
(* before and the mesh after (or by what is observed), independent of how it  *)
(* is computed.  Where an operation is simple enough it is also given as an   *)
(* executable abstract algorithm; MeshOpsMC checks these against the relation.*)
EXTENDS Mesh

Tiny  == RR("1/1000000000")        \* margin of comparisons made in doubles
Grow(x) == x \otimes (One \oplus Tiny)
Shrink(x) == x \otimes (One \ominus Tiny)
\* small multiples of 1/16: sums, differences and squares of these are exact in doubles, and so are
\* comparisons of distances; the margins below are only for the others
Simple(x) == RLe(RAbs(x), RR(1024)) /\ REq(RRound(x, 4), x)
SimplePoint(p) == Simple(p[1]) /\ Simple(p[2]) /\ Simple(p[3])
SimpleSeq(v, tol) == Simple(tol) /\ \A i \in DOMAIN v : SimplePoint(v[i])
Extent(m) == IF m.v = <<>> THEN One ELSE RMax(RR("1/1000000"), MaxF(LAMBDA i : PMax(m.v[i]), 1, Len(m.v)))

\* ------------------------------------------------------- vertex merging (C05)
Distinct(m) == Range(m.v)
Separated(m, tol) == LET D == Distinct(m) t2 == Grow(RSq(tol)) IN
                     \A p, q \in D : p = q \/ RLt(t2, Dist2(p, q))
UsedPos(m) == UNION {{Pos(m, m.t[i][k]) : k \in 1 .. 3} : i \in Live(m)}
Joinable(p, q, tol, exact) == p = q \/ IF exact THEN RLt(Dist2(p, q), RSq(tol)) ELSE RLe(Dist2(p, q), Grow(RSq(tol)))
Corners3(s) == UNION {{s[i][k] : k \in 1 .. 3} : i \in DOMAIN s}
MergePost(m, tol, o) ==
  LET a == LiveSeq(m) b == o.t exact == SimpleSeq(m.v, tol) IN
  /\ Len(b) = Len(a)                                        \* nothing lost, nothing added
  /\ \A i \in DOMAIN a : b[i] # <<>> /\ \A k \in 1 .. 3 :
       Joinable(Pos(m, a[i][k]), Pos(o, b[i][k]), tol, exact)
  /\ REq(tol, Zero) => Cardinality(Corners3(b)) = Cardinality(Corners3(a))   \* nothing is closer than nothing
  /\ Range(o.v) \subseteq Distinct(m)                       \* no invented position
  /\ o.c = m.c
\* what is left has no two vertices that should have been joined
MergeTight(tol, o) == LET t2 == IF SimpleSeq(o.v, tol) THEN RSq(tol) ELSE Shrink(RSq(tol)) IN
  \A i, j \in DOMAIN o.v : i < j => o.v[i] # o.v[j] /\ ~RLt(Dist2(o.v[i], o.v[j]), t2)
\* exactly one vertex per distinct position
MergeExact(m, o) == /\ Cardinality(Range(o.v)) = Len(o.v)
                    /\ UsedPos(m) \subseteq Range(o.v)

\* the greedy algorithm: a vertex joins the last earlier kept vertex closer than the tolerance
RECURSIVE Roots(_, _, _, _)
Roots(v, t2, i, acc) ==   \* acc[j] = the kept vertex j stands for
  IF i > Len(v) THEN acc
  ELSE LET c == {j \in 1 .. i - 1 : acc[j] = j /\ RLt(Dist2(v[i], v[j]), t2)} IN
       Roots(v, t2, i + 1, Append(acc, IF c = {} THEN i ELSE CHOOSE j \in c : \A k \in c : k <= j))
MergeAlgo(m, tol) ==
  LET r == Roots(m.v, RSq(tol), 1, <<>>)
      kept == {i \in DOMAIN r : r[i] = i}
      new(i) == Cardinality({j \in kept : j < r[i + 1]})
      pick[k \in 0 .. Len(m.v)] == IF k = 0 THEN <<>> ELSE IF k \in kept THEN Append(pick[k - 1], m.v[k]) ELSE pick[k - 1]
      s == LiveSeq(m) IN
  [c |-> m.c, v |-> pick[Len(m.v)], t |-> [i \in DOMAIN s |-> <<new(s[i][1]), new(s[i][2]), new(s[i][3])>>]]

\* ------------------------------------------- removing empty triangles (C06)
MinEdge2(m, x) == LET p == Pos(m, x[1]) q == Pos(m, x[2]) r == Pos(m, x[3]) IN
                  RMin(Dist2(p, q), RMin(Dist2(q, r), Dist2(r, p)))
RemoveEmptyPost(m, tol, o) ==
  LET exact == SimpleSeq(m.v, tol) IN
  /\ o.v = m.v /\ o.c = m.c /\ Len(o.t) = Len(m.t)
  /\ \A i \in DOMAIN m.t :
       IF m.t[i] = <<>> THEN o.t[i] = <<>>
       ELSE LET d == MinEdge2(m, m.t[i]) IN
            /\ o.t[i] \in {<<>>, m.t[i]}
            /\ RLt(d, IF exact THEN RSq(tol) ELSE Shrink(RSq(tol))) => o.t[i] = <<>>
            /\ (IF exact THEN RLe(RSq(tol), d) ELSE RLt(Grow(RSq(tol)), d)) => o.t[i] = m.t[i]
RemoveEmptyAlgo(m, tol) ==
  [m EXCEPT !.t = [i \in DOMAIN m.t |-> IF m.t[i] # <<>> /\ RLt(MinEdge2(m, m.t[i]), RSq(tol)) THEN <<>> ELSE m.t[i]]]

\* ------------------------------------------------------- tessellation (C07)
\* a subdivision of the standard triangle of side n into n*n lattice triangles,
\* given as a sequence of triples of lattice points <<u, v>>
LatticeDet(x) == (x[2][1] - x[1][1]) * (x[3][2] - x[1][2]) - (x[2][2] - x[1][2]) * (x[3][1] - x[1][1])
LEdges(S) == UNION {{<<x[1], x[2]>>, <<x[2], x[3]>>, <<x[3], x[1]>>} : x \in S}
OnSide(e, n) == \/ e[1][1] = 0 /\ e[2][1] = 0 /\ e[1][2] = e[2][2] + 1                      \* from c to a
                \/ e[1][2] = 0 /\ e[2][2] = 0 /\ e[2][1] = e[1][1] + 1                      \* from a to b
                \/ e[1][1] + e[1][2] = n /\ e[2][1] + e[2][2] = n /\ e[2][2] = e[1][2] + 1  \* from b to c
Subdivision(S, n) ==        \* S: set of n*n triples
  /\ Cardinality(S) = n * n
  /\ \A x \in S : /\ \A k \in 1 .. 3 : x[k][1] >= 0 /\ x[k][2] >= 0 /\ x[k][1] + x[k][2] <= n
                  /\ LatticeDet(x) = 1
  /\ LET E == LEdges(S) IN
     /\ Cardinality(E) = 3 * n * n
     /\ \A e \in E : <<e[2], e[1]>> \in E \/ OnSide(e, n)
\* the stripes
Stripes(n) == {<< <<s, 0>>, <<s + 1, 0>>, <<s, 1>> >> : s \in 0 .. n - 1}
              \cup UNION {{<< <<s - j, j>>, <<s - j, j + 1>>, <<s - j - 1, j + 1>> >> : j \in 0 .. s - 1} : s \in 0 .. n - 1}
              \cup UNION {{<< <<s - j - 1, j + 1>>, <<s - j, j + 1>>, <<s - j - 1, j + 2>> >> : j \in 0 .. s - 1} : s \in 0 .. n - 1}
LatticePos(P, u, n) == VAdd(P[1], VAdd(VScale(RDiv(RR(u[1]), RR(n)), VSub(P[2], P[1])), VScale(RDiv(RR(u[2]), RR(n)), VSub(P[3], P[1]))))
\* own[i]: which live input triangle output triangle i subdivides; lat[i]: its lattice triple
TessPost(m, n, o, own, lat) ==
  LET s == LiveSeq(m)
      eps == Tiny \otimes Extent(m) IN
  /\ \A i \in DOMAIN o.t : o.t[i] # <<>>
  /\ Len(o.t) = n * n * Len(s)
  /\ Len(own) = Len(o.t) /\ Len(lat) = Len(o.t)
  /\ \A k \in DOMAIN s : Subdivision({lat[i] : i \in {j \in DOMAIN own : own[j] = k}}, n)
  /\ \A i \in DOMAIN o.t : own[i] \in DOMAIN s /\
       LET x == s[own[i]] P == <<Pos(m, x[1]), Pos(m, x[2]), Pos(m, x[3])>> IN
       \A k \in 1 .. 3 : PNear(Pos(o, o.t[i][k]), LatticePos(P, lat[i][k], n), eps)
\* the output has no vertex that no triangle uses
AllUsed(o) == \A i \in DOMAIN o.v : \E j \in DOMAIN o.t : o.t[j] # <<>> /\ (i - 1) \in Range(o.t[j])

\* ------------------------------------------------------- grids (C10)
GridTris(w, h, t) ==        \* every cell is covered by two triangles of consistent winding
  LET S == {Norm3(t[i]) : i \in DOMAIN t} IN
  /\ \A i \in DOMAIN t : t[i] # <<>>
  /\ Len(t) = (IF w > 1 /\ h > 1 THEN 2 * (w - 1) * (h - 1) ELSE 0)
  /\ Cardinality(S) = Len(t)
  /\ \A i \in 0 .. w - 2 : \A j \in 0 .. h - 2 :
       LET a == i + w * j b == a + 1 c == b + w d == a + w IN
       {Norm3(x) : x \in Range(QuadA(a, b, c, d))} \subseteq S \/ {Norm3(x) : x \in Range(QuadB(a, b, c, d))} \subseteq S
FromZPost(w, h, z, o) ==
  /\ Len(o.v) = w * h /\ Len(z) = w * h
  /\ \A i \in 0 .. w - 1 : \A j \in 0 .. h - 1 : o.v[i + w * j + 1] = <<RR(i), RR(j), z[i + w * j + 1]>>
  /\ GridTris(w, h, o.t)
FromGridPost(w, h, g, o) == o.v = g /\ Len(g) = w * h /\ GridTris(w, h, o.t)

\* ------------------------------------------------------- measurements (C09)
MeasEps(m) == RR("1/1000000000000") \otimes RR(Cardinality(Live(m)) + 1)
Cube(x) == x \otimes RSq(x)
VolumeOk(m, vol)   == Near(vol, SixVolume(m) \oslash RR(6), MeasEps(m) \otimes Cube(Extent(m)))
SurfaceOk(m, surf) == Near(surf, SurfaceOf(m), MeasEps(m) \otimes RSq(Extent(m)))
Tri2Area(m, x) == Area2of(Pos(m, x[1]), Pos(m, x[2]), Pos(m, x[3]))
TriExtent(m, x) == RMax(PMax(Pos(m, x[1])), RMax(PMax(Pos(m, x[2])), PMax(Pos(m, x[3]))))
NoDegOk(m, nodeg) ==
  IF nodeg THEN \A i \in Live(m) : ~RLe(MinEdge2(m, m.t[i]), Zero)      \* no coinciding corners
  ELSE \E i \in Live(m) : RLe(Tri2Area(m, m.t[i]), RR("1e-24") \otimes RSq(RSq(TriExtent(m, m.t[i]))))
OutsideOk(m, out) == LET v == SixVolume(m) e == MeasEps(m) \otimes Cube(Extent(m)) IN
                     /\ RLt(e, v) => out
                     /\ RLt(v, RNeg(e)) => ~out
\* an open mesh is never closed; a clean one is all that is checked
SetClosed(ts) == LET D == {<<t[1], t[2]>> : t \in ts} \cup {<<t[2], t[3]>> : t \in ts} \cup {<<t[3], t[1]>> : t \in ts}
                 IN \A e \in D : <<e[2], e[1]>> \in D
ClosedOk(m, closed) == IF Live(m) = {} THEN closed ELSE closed => SetClosed({m.t[i] : i \in Live(m)})
\* nothing is wrong with a mesh that has nothing
CleanOk(m, e) == IF m.v = <<>> /\ Live(m) = {} THEN e.clean ELSE e.clean => e.nodeg /\ e.out /\ e.closed
MeasurePost(m, e) ==
  /\ VolumeOk(m, e.vol) /\ SurfaceOk(m, e.surf) /\ NoDegOk(m, e.nodeg) /\ OutsideOk(m, e.out)
  /\ ClosedOk(m, e.closed)
  /\ CleanOk(m, e)

\* ------------------------------------------------------- factory shapes (C08)
Phi == (One \oplus RSqrt(RR(5))) \oslash RR(2)
FEps == RR("1/1000000000")
\* w: class of every vertex, equal exactly for vertices in the same place
WeldOk(m, w, size) ==
  /\ Len(w) = Len(m.v)
  /\ LET rep == [k \in Range(w) |-> m.v[CHOOSE i \in DOMAIN w : w[i] = k /\ \A j \in 1 .. i - 1 : w[j] # k]] IN
     \A i \in DOMAIN w : PNear(m.v[i], rep[w[i]], FEps \otimes size)
Welded(m, w) == LET s == LiveSeq(m) IN [i \in DOMAIN s |-> <<w[s[i][1] + 1], w[s[i][2] + 1], w[s[i][3] + 1]>>]
ManifoldSeq(t) ==       \* every directed edge once, and its reverse once
  LET S == Range(t)
      D == UNION {{<<x[1], x[2]>>, <<x[2], x[3]>>, <<x[3], x[1]>>} : x \in S} IN
  /\ \A x \in S : x[1] # x[2] /\ x[2] # x[3] /\ x[1] # x[3]
  /\ Cardinality(D) = 3 * Len(t)
  /\ \A e \in D : <<e[2], e[1]>> \in D
UsedClasses(t) == UNION {Range(t[i]) : i \in DOMAIN t}
EulerChar(t) == 2 * Cardinality(UsedClasses(t)) - 3 * Len(t) + 2 * Len(t)      \* twice V - E + F
Star(m, size) == \A i \in Live(m) : RLt(FEps \otimes FEps \otimes Cube(size), Det(Tri(m, i - 1)[1], Tri(m, i - 1)[2], Tri(m, i - 1)[3]))
OnSphere(p, r) == Near(Norm2(p), RSq(r), FEps \otimes RSq(r))
OnCylinder(p, h, r) == /\ Near(RAbs(p[3]), h \oslash RR(2), FEps \otimes h)
                       /\ LET q == RSq(p[1]) \oplus RSq(p[2]) IN
                          Near(q, RSq(r), FEps \otimes RSq(r)) \/ RLe(q, RSq(FEps \otimes r))
RingDist(p, R) == RSqrt(RSq(p[1]) \oplus RSq(p[2])) \ominus R
\* a spindle torus (r > R) also passes on the other side of the axis
OnTorus(p, R, r) == \/ Near(RSq(RingDist(p, R)) \oplus RSq(p[3]), RSq(r), FEps \otimes RSq(R \oplus r))
                    \/ Near(RSq(RingDist(p, RNeg(R))) \oplus RSq(p[3]), RSq(r), FEps \otimes RSq(R \oplus r))
\* the nearest point of the torus' central circle
RingPoint(p, R) == LET k == R \oslash RSqrt(RSq(p[1]) \oplus RSq(p[2])) IN <<k \otimes p[1], k \otimes p[2], Zero>>
\* outwards: along the mean offset of the corners from the central circle
TorusOut(m, R) == \A i \in Live(m) :
  LET x == Tri(m, i - 1)
      off(p) == VSub(p, RingPoint(p, R)) IN
  RLt(Zero, Dot(Cross(VSub(x[2], x[1]), VSub(x[3], x[1])), VAdd(off(x[1]), VAdd(off(x[2]), off(x[3])))))
PairDists(m) == {Dist2(m.v[i], m.v[j]) : i \in DOMAIN m.v, j \in DOMAIN m.v}
VolNear(m, v) == Near(SixVolume(m), RR(6) \otimes v, FEps \otimes v)
\* the volume approaches the ideal one from below, quadratically in the level of detail
VolApproach(m, v, c, n) == LET x == SixVolume(m) \oslash RR(6) IN
  RLe(x, Grow(v)) /\ RLe(v \otimes (One \ominus (c \oslash RR(n * n))), x)
ShapePost(k, a, n, m) ==
  LET V == Range(m.v)
      d == a[1] IN
  CASE k = "tetrahedron" ->
         /\ \A p \in V : OnSphere(p, d \otimes RSqrt(RR(3)))
         /\ Len(LiveSeq(m)) = 4 /\ VolNear(m, RR("8/3") \otimes Cube(d))
    [] k = "box" ->
         /\ \A p \in V : /\ Near(RAbs(p[1]), a[1] \oslash RR(2), FEps \otimes a[1])
                         /\ Near(RAbs(p[2]), a[2] \oslash RR(2), FEps \otimes a[2])
                         /\ Near(RAbs(p[3]), a[3] \oslash RR(2), FEps \otimes a[3])
         /\ Len(LiveSeq(m)) = 12 /\ VolNear(m, a[1] \otimes a[2] \otimes a[3])
    [] k = "octahedron" -> (\A p \in V : OnSphere(p, d)) /\ Len(LiveSeq(m)) = 8 /\ VolNear(m, RR("4/3") \otimes Cube(d))
    [] k = "dodecahedron" ->
         /\ \A p \in V : OnSphere(p, d \otimes RSqrt(RR(3)))
         /\ Len(LiveSeq(m)) = 36
         /\ VolNear(m, ((RR(15) \oplus (RR(7) \otimes RSqrt(RR(5)))) \oslash RR(4)) \otimes Cube((RR(2) \otimes d) \oslash Phi))
    [] k = "icosahedron" ->
         LET t == d \oslash Phi IN
         /\ \A p \in V : OnSphere(p, RSqrt(RSq(d) \oplus RSq(t)))
         /\ Len(LiveSeq(m)) = 20
         /\ VolNear(m, ((RR(5) \otimes (RR(3) \oplus RSqrt(RR(5)))) \oslash RR(12)) \otimes Cube(RR(2) \otimes t))
    [] k = "cylinder" ->       \* a = height, radius
         (\A p \in V : OnCylinder(p, a[1], a[2])) /\ VolApproach(m, RPi \otimes a[1] \otimes RSq(a[2]), RR("0.55"), n)
    [] k = "sphere_geodesic" -> (\A p \in V : OnSphere(p, d)) /\ VolApproach(m, RR("4/3") \otimes RPi \otimes Cube(d), RR("0.75"), n)
    [] k = "sphere_uv" -> (\A p \in V : OnSphere(p, d)) /\ VolApproach(m, RR("4/3") \otimes RPi \otimes Cube(d), RR("1.35"), n)
    [] k = "torus" -> /\ \A p \in V : OnTorus(p, a[1], a[2])
                      /\ TorusOut(m, a[1])
                      /\ VolApproach(m, RR(2) \otimes RSq(RPi) \otimes a[1] \otimes RSq(a[2]), RR("2.3"), n)
FactorySize(k, a) == IF k = "box" THEN RMax(a[1], RMax(a[2], a[3])) ELSE IF k \in {"cylinder", "torus"} THEN a[1] \oplus a[2] ELSE a[1]
FactorySmall(k, a) == IF k = "box" THEN RMin(a[1], RMin(a[2], a[3])) ELSE IF k \in {"cylinder", "torus"} THEN RMin(a[1], a[2]) ELSE a[1]

\* ------------------------------------------- cutting surfaces (C03)
InTriangle(p, x, eps) ==     \* p lies in the triangle with corners x, up to eps
  LET n == Cross(VSub(x[2], x[1]), VSub(x[3], x[1]))
      n2 == Norm2(n)
      len == RSqrt(n2) IN
  /\ RLe(RAbs(Dot(n, VSub(p, x[1]))), eps \otimes len)
  /\ \A k \in 1 .. 3 : LET q == x[k] r == x[(k % 3) + 1] IN
       RLe(RNeg(eps) \otimes RSqrt(Norm2(VSub(r, q))) \otimes len, Dot(n, Cross(VSub(r, q), VSub(p, q))))
CutEps == RR("1e-6")
SameSurface(m, o) ==
  LET e == Extent(m) IN
  /\ Near(SurfaceOf(o), SurfaceOf(m), CutEps \otimes RSq(e))
  /\ PNear(AreaVec(o), AreaVec(m), CutEps \otimes RSq(e))
  /\ Near(SixVolume(o), SixVolume(m), CutEps \otimes Cube(e))
  /\ \A i \in Live(o) : LET y == Tri(o, i - 1) IN
       \E j \in Live(m) : LET x == Tri(m, j - 1) IN
         /\ \A k \in 1 .. 3 : InTriangle(y[k], x, CutEps \otimes e)
         /\ RLe(RNeg(CutEps \otimes RSq(RSq(e))), Dot(Cross(VSub(y[2], y[1]), VSub(y[3], y[1])), Cross(VSub(x[2], x[1]), VSub(x[3], x[1]))))
\* cutting one triangle: every other slot and every existing vertex stays
CutOne(m, t, o) ==
  /\ Len(o.v) >= Len(m.v) /\ SubSeq(o.v, 1, Len(m.v)) = m.v /\ o.c = m.c
  /\ Len(o.t) >= Len(m.t)
  /\ \A i \in DOMAIN m.t : i # t + 1 => o.t[i] = m.t[i]
  /\ o.t[t + 1] \in {m.t[t + 1], <<>>}
=============================================================================
