-------------------------------- MODULE Geom --------------------------------
(* Geometric queries by their Euclidean meaning, in exact arithmetic.  A query*)
(* computed in doubles may answer either way within a margin of a boundary;   *)
(* Must and MustNot say where the answer is settled.                          *)
EXTENDS Vec

GEps == RR("1e-9")
Len3(v) == RSqrt(Norm2(v))
\* small integers: the arithmetic of the implementation is exact there
SmallInt(x) == RLe(RAbs(x), RR(64)) /\ REq(RR(RFloor(x)), x)
SmallPts(s) == \A i \in DOMAIN s : \A k \in 1 .. 3 : SmallInt(s[i][k])
ExtentOf(s) == RMax(RR("1e-300"), MaxF(LAMBDA i : PMax(s[i]), 1, Len(s)))
NormalOf(t) == Cross(VSub(t[2], t[1]), VSub(t[3], t[1]))
LongEdge2(t) == RMax(Dist2(t[1], t[2]), RMax(Dist2(t[2], t[3]), Dist2(t[3], t[1])))
\* a triangle that is not degenerate: area at least 1e-3 of its longest edge squared
FatTri(t) == RLt(Zero, LongEdge2(t)) /\ RLe(RR("1e-6") \otimes RSq(LongEdge2(t)), Norm2(NormalOf(t)))
\* barycentric coordinates of (the projection of) p
Lambda(t, p, k) == LET n == NormalOf(t) q == t[k] r == t[(k % 3) + 1] IN
                   Dot(n, Cross(VSub(r, q), VSub(p, q))) \oslash Norm2(n)
Lambdas(t, p) == <<Lambda(t, p, 1), Lambda(t, p, 2), Lambda(t, p, 3)>>
LMargin == RR("1e-5")
Inside(t, p, m) == \A k \in 1 .. 3 : RLe(m, Lambda(t, p, k))
Outside(t, p, m) == \E k \in 1 .. 3 : RLt(Lambda(t, p, k), RNeg(m))
\* signed distance to the plane of t times |n|
Height(t, p) == Dot(NormalOf(t), VSub(p, t[1]))
Dist(t, p) == Height(t, p) \oslash Len3(NormalOf(t))

\* -------------------------------------------------- point in triangle
ContainsAnswers(t, p) ==
  IF SmallPts(t) /\ SmallPts(<<p>>) THEN {Inside(t, p, Zero)}
  ELSE IF Inside(t, p, LMargin) THEN {TRUE} ELSE IF Outside(t, p, LMargin) THEN {FALSE} ELSE BOOLEAN
Coplanar(t, p) == RLe(RAbs(Dist(t, p)), RR("1e-12") \otimes ExtentOf(t \o <<p>>))

\* -------------------------------------------------- triangle and plane (of triangle q)
AxisPlane(q) == LET n == NormalOf(q) IN SmallPts(q) /\ Cardinality({k \in 1 .. 3 : ~REq(n[k], Zero)}) = 1
CutAnswers(t, q) ==
  LET d == [k \in 1 .. 3 |-> Dist(q, t[k])]
      e == IF AxisPlane(q) /\ SmallPts(t) THEN Zero ELSE GEps \otimes ExtentOf(t \o q) IN
  IF (\E k \in 1 .. 3 : RLt(e, d[k])) /\ (\E k \in 1 .. 3 : RLt(d[k], RNeg(e))) THEN {TRUE}
  ELSE IF (\A k \in 1 .. 3 : RLe(e, d[k])) \/ (\A k \in 1 .. 3 : RLe(d[k], RNeg(e))) THEN {FALSE}
  ELSE BOOLEAN

\* -------------------------------------------------- plane and segment
PlaneSegAnswers(q, s) ==
  LET a == Dist(q, s[1]) b == Dist(q, s[2]) e == GEps \otimes ExtentOf(q \o s) IN
  IF (RLt(e, a) /\ RLt(b, RNeg(e))) \/ (RLt(e, b) /\ RLt(a, RNeg(e))) THEN {TRUE}
  ELSE IF (RLt(e, a) /\ RLt(e, b)) \/ (RLt(a, RNeg(e)) /\ RLt(b, RNeg(e))) THEN {FALSE}
  ELSE BOOLEAN
\* p lies on segment s, up to a fraction of its extent
OnSegment(s, p, eps) ==
  LET u == VSub(s[2], s[1]) w == VSub(p, s[1]) u2 == Norm2(u) IN
  /\ RLe(Norm2(Cross(u, w)), RSq(eps) \otimes u2)
  /\ RLe(RNeg(eps) \otimes RSqrt(u2), Dot(u, w)) /\ RLe(Dot(u, w), u2 \oplus (eps \otimes RSqrt(u2)))
OnPlane(q, p, eps) == RLe(RAbs(Dist(q, p)), eps)

\* -------------------------------------------------- triangle and segment
Crossing(t, s) == LET a == Height(t, s[1]) b == Height(t, s[2]) IN
                  VAdd(s[1], VScale(a \oslash (a \ominus b), VSub(s[2], s[1])))
Steep(t, s) == RLe(RR("1e-4") \otimes ExtentOf(t \o s), RAbs(Dist(t, s[1]) \ominus Dist(t, s[2])))
TriSegAnswers(t, s) ==
  LET P == PlaneSegAnswers(t, s) IN
  IF P = {FALSE} THEN {FALSE}
  ELSE IF ~Steep(t, s) THEN BOOLEAN
  ELSE IF Outside(t, Crossing(t, s), LMargin) THEN {FALSE}
  ELSE IF P = {TRUE} /\ Inside(t, Crossing(t, s), LMargin) THEN {TRUE}
  ELSE BOOLEAN
EdgesOf(t) == {<<t[1], t[2]>>, <<t[2], t[3]>>, <<t[3], t[1]>>}
TriTriAnswers(t, u) ==
  LET A == {TriSegAnswers(t, s) : s \in EdgesOf(u)} \cup {TriSegAnswers(u, s) : s \in EdgesOf(t)} IN
  IF {TRUE} \in A THEN {TRUE} ELSE IF A = {{FALSE}} THEN {FALSE} ELSE BOOLEAN

\* -------------------------------------------------- two segments
SegSeg(s, t) ==
  LET u == VSub(s[2], s[1]) v == VSub(t[2], t[1]) w == VSub(s[1], t[1])
      a == Norm2(u) b == Dot(u, v) c == Norm2(v) d == Dot(u, w) e == Dot(v, w)
      D == (a \otimes c) \ominus RSq(b) IN
  [a |-> a, c |-> c, D |-> D,
   ok |-> RLt(RR("1e-4") \otimes a \otimes c, D),
   par |-> RLe(D, RR("1e-14") \otimes a \otimes c),
   s |-> ((b \otimes e) \ominus (c \otimes d)) \oslash D,
   t |-> ((a \otimes e) \ominus (b \otimes d)) \oslash D,
   off |-> IF REq(c, Zero) THEN Zero ELSE Norm2(Cross(v, w)) \oslash c]
SMargin == RR("1e-7")
In01(x, m) == RLe(m, x) /\ RLe(x, One \ominus m)
SegMeet(s, r) == VAdd(s[1], VScale(r.s, VSub(s[2], s[1])))
SegGap2(s, t, r) == Dist2(SegMeet(s, r), VAdd(t[1], VScale(r.t, VSub(t[2], t[1]))))
\* segments of small integers whose parameters are computed without rounding: a touch is settled too
Pow2(x) == \E k \in 0 .. 24 : REq(x, RR(2 ^ k))
SegExact(s, t, r) == /\ SmallPts(s) /\ SmallPts(t) /\ RLt(Zero, r.D)
                     /\ Pow2(r.a) /\ Pow2(r.c) /\ Pow2(r.D)
SegSegAnswers(s, t) ==
  LET r == SegSeg(s, t) IN
  IF SegExact(s, t, r) THEN {In01(r.s, Zero) /\ In01(r.t, Zero) /\ REq(SegGap2(s, t, r), Zero)}
  ELSE IF r.ok THEN
    LET g == SegGap2(s, t, r) z == r.a \oplus r.c IN
    IF In01(r.s, SMargin) /\ In01(r.t, SMargin) /\ RLe(g, RR("1e-20") \otimes z) THEN {TRUE}
    ELSE IF ~In01(r.s, RNeg(SMargin)) \/ ~In01(r.t, RNeg(SMargin)) \/ RLt(RR("1e-13") \otimes z, g) THEN {FALSE}
    ELSE BOOLEAN
  ELSE IF r.par /\ RLt(RR("1e-6") \otimes (r.a \oplus r.c), r.off) THEN {FALSE}    \* parallel and apart
  ELSE BOOLEAN

\* -------------------------------------------------- boxes
BoxOf(s) == [lo |-> [k \in 1 .. 3 |-> RNeg(MaxF(LAMBDA i : RNeg(s[i][k]), 1, Len(s)))],
             hi |-> [k \in 1 .. 3 |-> MaxF(LAMBDA i : s[i][k], 1, Len(s))]]
BoxesMeet(a, b) == LET x == BoxOf(a) y == BoxOf(b) IN \A k \in 1 .. 3 : RLe(x.lo[k], y.hi[k]) /\ RLe(y.lo[k], x.hi[k])
=============================================================================
