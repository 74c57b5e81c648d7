-------------------------------- MODULE Nurbs --------------------------------
(* Rational B-spline curves and surfaces by definition (Cox - de Boor basis   *)
(* functions), with refinement given by polar forms.  A curve is              *)
(* [d |-> degree, k |-> knots, w |-> weights, p |-> control points]; a surface*)
(* [du, dv, ku, kv, w, p, nu, nv, cu, cv], control point (i, j) at i + nu*j.  *)
EXTENDS Vec, SequencesExt

NoCurve == [d |-> 0, k |-> <<>>, w |-> <<>>, p |-> <<>>]
NoSurface == [du |-> 0, dv |-> 0, nu |-> 0, nv |-> 0, cu |-> FALSE, cv |-> FALSE, ku |-> <<>>, kv |-> <<>>, w |-> <<>>, p |-> <<>>]

Sorted(k) == \A i \in 1 .. Len(k) - 1 : RLe(k[i], k[i + 1])
InUnit(k) == \A i \in DOMAIN k : RLe(Zero, k[i]) /\ RLe(k[i], One)
\* span i contains u; the last one that is not empty is closed on the right
Lies(k, i, u) == \/ RLe(k[i], u) /\ RLt(u, k[i + 1])
                 \/ REq(u, k[Len(k)]) /\ RLt(k[i], u) /\ REq(k[i + 1], u)
Span(k, u) == CHOOSE i \in 1 .. Len(k) - 1 : Lies(k, i, u)

RECURSIVE Bas(_, _, _, _)
Bas(k, i, d, u) ==
  IF RLt(u, k[i]) \/ RLt(k[i + d + 1], u) THEN Zero
  ELSE IF d = 0 THEN IF Lies(k, i, u) THEN One ELSE Zero
  ELSE LET a == k[i + d] \ominus k[i]
           b == k[i + d + 1] \ominus k[i + 1] IN
       (IF REq(a, Zero) THEN Zero ELSE ((u \ominus k[i]) \oslash a) \otimes Bas(k, i, d - 1, u))
       \oplus (IF REq(b, Zero) THEN Zero ELSE ((k[i + d + 1] \ominus u) \oslash b) \otimes Bas(k, i + 1, d - 1, u))
\* the basis functions that are not null at u: number of the first one, and the d+1 values
BasAt(k, d, u) == LET s == Span(k, u) IN [o |-> s - d, b |-> [j \in 1 .. d + 1 |-> Bas(k, s - d + j - 1, d, u)]]
\* the part of [0,1] where the basis is complete (at its end, only if that is the end of the knots)
InDomain(k, d, u) == RLe(k[d + 1], u) /\ (RLt(u, k[Len(k) - d]) \/ (REq(u, k[Len(k)]) /\ REq(u, k[Len(k) - d])))

WellFormedCurve(c) == /\ c.d >= 1 /\ Len(c.k) = Len(c.p) + c.d + 1 /\ Len(c.w) = Len(c.p) /\ Len(c.p) > c.d
                      /\ Sorted(c.k) /\ \A i \in DOMAIN c.w : RLt(Zero, c.w[i])
\* what is enough for evaluation: also piecewise constant, torn (a knot more than d times), some weights null
EvalCurve(c) == /\ c.d >= 0 /\ Len(c.k) = Len(c.p) + c.d + 1 /\ Len(c.w) = Len(c.p) /\ Len(c.p) > c.d
                /\ Sorted(c.k) /\ \A i \in DOMAIN c.w : RLe(Zero, c.w[i])
Clamped(k, d) == \A i \in 1 .. d + 1 : REq(k[i], k[1]) /\ REq(k[Len(k) + 1 - i], k[Len(k)])
MultOf(k, x) == Cardinality({i \in DOMAIN k : REq(k[i], x)})
\* ends of multiplicity d+1 exactly, no interior knot of more than d
Standard(k, d) == /\ Clamped(k, d)
                  /\ \A i \in DOMAIN k : MultOf(k, k[i]) <= (IF REq(k[i], k[1]) \/ REq(k[i], k[Len(k)]) THEN d + 1 ELSE d)

CurveAtB(c, x) ==      \* x = BasAt(c.k, c.d, u)
  LET f(j) == x.b[j] \otimes c.w[x.o + j - 1]
      den == SumF(f, 1, Len(x.b))
      num == VSumF(LAMBDA j : VScale(f(j), c.p[x.o + j - 1]), 1, Len(x.b))
  IN VScale(One \oslash den, num)
CurveAt(c, u) == CurveAtB(c, BasAt(c.k, c.d, u))

SurfAtB(s, x, y) ==
  LET ix(i, j) == (x.o + i - 1) + s.nu * (y.o + j - 2)
      f(i, j) == x.b[i] \otimes y.b[j] \otimes s.w[ix(i, j)]
      den == SumF(LAMBDA j : SumF(LAMBDA i : f(i, j), 1, Len(x.b)), 1, Len(y.b))
      num == VSumF(LAMBDA j : VSumF(LAMBDA i : VScale(f(i, j), s.p[ix(i, j)]), 1, Len(x.b)), 1, Len(y.b))
  IN VScale(One \oslash den, num)
SurfAt(s, u, v) == SurfAtB(s, BasAt(s.ku, s.du, u), BasAt(s.kv, s.dv, v))
WellFormedSurface(s) ==
  /\ s.du >= 1 /\ s.dv >= 1 /\ s.nu > s.du /\ s.nv > s.dv
  /\ Len(s.p) = s.nu * s.nv /\ Len(s.w) = Len(s.p)
  /\ Len(s.ku) = s.nu + s.du + 1 /\ Len(s.kv) = s.nv + s.dv + 1
  /\ Sorted(s.ku) /\ Sorted(s.kv) /\ \A i \in DOMAIN s.w : RLt(Zero, s.w[i])
EvalSurface(s) ==
  /\ s.du >= 0 /\ s.dv >= 0 /\ s.nu > s.du /\ s.nv > s.dv
  /\ Len(s.p) = s.nu * s.nv /\ Len(s.w) = Len(s.p)
  /\ Len(s.ku) = s.nu + s.du + 1 /\ Len(s.kv) = s.nv + s.dv + 1
  /\ Sorted(s.ku) /\ Sorted(s.kv) /\ \A i \in DOMAIN s.w : RLe(Zero, s.w[i])

\* ------------------------------------------------------- setters
RMinSeq(s) == RNeg(MaxF(LAMBDA i : RNeg(s[i]), 1, Len(s)))
RMaxSeq(s) == MaxF(LAMBDA i : s[i], 1, Len(s))
Rescaled(k) == LET a == RMinSeq(k) b == RMaxSeq(k) IN [i \in DOMAIN k |-> (k[i] \ominus a) \oslash (b \ominus a)]
UniformKnots(d, n) == [i \in 1 .. n + d + 1 |-> IF i <= d + 1 THEN Zero ELSE IF i > n THEN One ELSE RDiv(RR(i - d - 1), RR(n - d))]
KEps == RR("1e-12")
SameKnots(a, b) == Len(a) = Len(b) /\ \A i \in DOMAIN a : Near(a[i], b[i], KEps)
Ones(n) == [i \in 1 .. n |-> One]

\* ------------------------------------------------------- refinement
Inserted(k, u) == LET j == Cardinality({i \in DOMAIN k : RLe(k[i], u)}) IN SubSeq(k, 1, j) \o <<u>> \o SubSeq(k, j + 1, Len(k))
RECURSIVE Raised(_)      \* every distinct knot once more
Raised(k) == IF k = <<>> THEN <<>>
             ELSE LET n == MultOf(k, k[1]) IN <<k[1]>> \o SubSeq(k, 1, n) \o Raised(SubSeq(k, n + 1, Len(k)))
\* parameters that tell two curves with knots among those of k apart
Fractions == <<Zero, RR("1/7"), RR("1/2"), RR("5/6")>>
Probes(k) == LET s == {i \in 1 .. Len(k) - 1 : RLt(k[i], k[i + 1])} IN
             {k[Len(k)]} \cup {k[i] \oplus (f \otimes (k[i + 1] \ominus k[i])) : i \in s, f \in Range(Fractions)}
\* fewer, for surfaces
FewProbes(k) == LET s == {i \in 1 .. Len(k) - 1 : RLt(k[i], k[i + 1])} IN
                {k[1], k[Len(k)]} \cup {k[i] \oplus (f \otimes (k[i + 1] \ominus k[i])) : i \in s, f \in {RR("1/3"), RR("3/4")}}
ExtentP(p) == RMax(RR("1e-300"), MaxF(LAMBDA i : PMax(p[i]), 1, Len(p)))
NEps == RR("1e-9")
DomainProbes(k, d) == {u \in Probes(k) : InDomain(k, d, u)}
SameCurve(a, b, eps) == \A u \in DomainProbes(a.k, a.d) \cup DomainProbes(b.k, b.d) : PNear(CurveAt(a, u), CurveAt(b, u), eps)
\* a grid of probes, thin in both directions
ProbePairs(s) ==
  LET U == SetToSeq(FewProbes(s.ku)) V == SetToSeq(FewProbes(s.kv)) IN
  {<<U[i], V[j]>> : i \in DOMAIN U, j \in DOMAIN V}
Thin(S) == LET q == SetToSeq(S) IN IF Len(q) <= 48 THEN S ELSE {q[i] : i \in {j \in DOMAIN q : j % ((Len(q) \div 40) + 1) = 0}}
SameSurf(a, b, eps) ==
  LET U == FewProbes(a.ku) \cup FewProbes(b.ku) V == FewProbes(a.kv) \cup FewProbes(b.kv) IN
  \A x \in Thin(U \X V) : PNear(SurfAt(a, x[1], x[2]), SurfAt(b, x[1], x[2]), eps)

\* Polar form: the value of the blossom of segment s (span s of the knots) at the
\* arguments a, in homogeneous coordinates <<x, y, z, w>>
Hom(c, i) == <<c.w[i] \otimes c.p[i][1], c.w[i] \otimes c.p[i][2], c.w[i] \otimes c.p[i][3], c.w[i]>>
Mix(al, p, q) == [j \in 1 .. 4 |-> ((One \ominus al) \otimes p[j]) \oplus (al \otimes q[j])]
RECURSIVE Polar(_, _, _, _, _)
Polar(c, s, a, r, i) ==      \* stage r, point i
  IF r = 0 THEN Hom(c, i)
  ELSE LET al == (a[r] \ominus c.k[i]) \oslash (c.k[i + c.d + 1 - r] \ominus c.k[i]) IN
       Mix(al, Polar(c, s, a, r - 1, i - 1), Polar(c, s, a, r - 1, i))
Blossom(c, s, a) == Polar(c, s, a, c.d, s)
FromHom(h) == VScale(One \oslash h[4], <<h[1], h[2], h[3]>>)
\* a span of k that is not empty and shares points with the interval from a to b
SpanIn(k, a, b) == CHOOSE i \in 1 .. Len(k) - 1 : RLt(k[i], k[i + 1]) /\ RLt(a, k[i + 1]) /\ RLt(k[i], b)
Without(a, j) == SubSeq(a, 1, j - 1) \o SubSeq(a, j + 1, Len(a))
WithHom(d, k, h) == [d |-> d, k |-> k, w |-> [i \in DOMAIN h |-> h[i][4]], p |-> [i \in DOMAIN h |-> FromHom(h[i])]]
\* control point i of a curve of degree d on knots t is its polar form at t[i+1 .. i+d]
InsertAlgo(c, u) ==
  LET t == Inserted(c.k, u) IN
  WithHom(c.d, t, [i \in 1 .. Len(c.p) + 1 |-> Blossom(c, SpanIn(c.k, t[i], t[i + c.d + 1]), SubSeq(t, i + 1, i + c.d))])
ElevateAlgo(c) ==
  LET t == Raised(c.k)
      e == c.d + 1
      pt(i) == LET a == SubSeq(t, i + 1, i + e)
                   s == SpanIn(c.k, t[i], t[i + e + 1])
                   b == [j \in 1 .. e |-> Blossom(c, s, Without(a, j))] IN
               [m \in 1 .. 4 |-> SumF(LAMBDA j : b[j][m], 1, e) \oslash RR(e)]
  IN WithHom(e, t, [i \in 1 .. Len(t) - e - 1 |-> pt(i)])

\* surfaces are refined curve by curve
UCurve(s, j) == [d |-> s.du, k |-> s.ku, w |-> SubSeq(s.w, s.nu * (j - 1) + 1, s.nu * j), p |-> SubSeq(s.p, s.nu * (j - 1) + 1, s.nu * j)]
VCurve(s, i) == [d |-> s.dv, k |-> s.kv, w |-> [j \in 1 .. s.nv |-> s.w[i + s.nu * (j - 1)]], p |-> [j \in 1 .. s.nv |-> s.p[i + s.nu * (j - 1)]]]
RefineU(s, F(_)) == LET r == [j \in 1 .. s.nv |-> F(UCurve(s, j))] n == Len(r[1].p) IN
  [s EXCEPT !.du = r[1].d, !.ku = r[1].k, !.nu = n, !.w = [x \in 1 .. n * s.nv |-> r[((x - 1) \div n) + 1].w[((x - 1) % n) + 1]],
            !.p = [x \in 1 .. n * s.nv |-> r[((x - 1) \div n) + 1].p[((x - 1) % n) + 1]]]
RefineV(s, F(_)) == LET r == [i \in 1 .. s.nu |-> F(VCurve(s, i))] n == Len(r[1].p) IN
  [s EXCEPT !.dv = r[1].d, !.kv = r[1].k, !.nv = n, !.w = [x \in 1 .. n * s.nu |-> r[((x - 1) % s.nu) + 1].w[((x - 1) \div s.nu) + 1]],
            !.p = [x \in 1 .. n * s.nu |-> r[((x - 1) % s.nu) + 1].p[((x - 1) \div s.nu) + 1]]]
=============================================================================
