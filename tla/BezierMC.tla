------------------------------- MODULE BezierMC -------------------------------
(* The definition of a quadratic Bezier triangle has the properties it is used *)
(* for; every history of setters, up to a depth and in every order, is printed *)
(* to be replayed on the implementation.                                       *)
EXTENDS Bezier, Xform, TLC
CONSTANTS Depth, Emit
VARIABLES b, hist, n
PS == << [s |-> "3 1 0 0 0 1 0 0 0 1", p |-> <<P3(1, 0, 0), P3(0, 1, 0), P3(0, 0, 1)>>], [s |-> "3 2 -1 3 4 5 -6 0 0 7", p |-> <<P3(2, -1, 3), P3(4, 5, -6), P3(0, 0, 7)>>] >>
CS == << [s |-> "3 1 1 0 1 0 1 0 1 1", p |-> <<P3(1, 1, 0), P3(1, 0, 1), P3(0, 1, 1)>>], [s |-> "3 9 0 -2 1 1 1 -3 4 5", p |-> <<P3(9, 0, -2), P3(1, 1, 1), P3(-3, 4, 5)>>] >>
WS == << [s |-> "6 1 1 1 1 1 1", w |-> <<One, One, One, One, One, One>>], [s |-> "6 1 2 3 0.5 4 0.25", w |-> <<RR(1), RR(2), RR(3), RR("1/2"), RR(4), RR("1/4")>>] >>
TSs == << [s |-> "translation 3 1 -2 5", k |-> "translation", a |-> P3(1, -2, 5)], [s |-> "scale 3 2 0.5 -1", k |-> "scale", a |-> <<RR(2), RR("1/2"), RR(-1)>>],
          [s |-> "mat 9 0 1 2 -1 3 0 0.5 1 1", k |-> "mat", a |-> <<RR(0), RR(1), RR(2), RR(-1), RR(3), RR(0), RR("1/2"), RR(1), RR(1)>>] >>
Ev4 == "b_eval A 4 0.25 0.5 0.1 0.3 4 0.25 0.5 0.7 0.3"
Log(s) == hist' = hist \o s \o ";" \o Ev4 \o ";" /\ n' = n + 1
Init == b = NoPatch /\ hist = "" /\ n = 0
Tr(t) == [b EXCEPT !.p = [i \in 1 .. 3 |-> Apply(t.k, t.a, b.p[i])], !.c = [i \in 1 .. 3 |-> Apply(t.k, t.a, b.c[i])]]
Next == /\ n < Depth
        /\ \/ \E i \in DOMAIN PS : b' = SetPoints(b, PS[i].p) /\ Log("b_points A " \o PS[i].s)
           \/ \E i \in DOMAIN CS : b' = SetControl(b, CS[i].p) /\ Log("b_control A " \o CS[i].s)
           \/ \E i \in DOMAIN WS : b' = SetWeights(b, WS[i].w) /\ Log("b_weights A " \o WS[i].s)
           \/ \E i \in DOMAIN TSs : b' = Tr(TSs[i]) /\ Log("b_transform A " \o TSs[i].s)
           \/ UNCHANGED b /\ Log("b_copy B A;b_new A;b_assign A B;b_mesh M A 3")
Spec == Init /\ [][Next]_<<b, hist, n>>
EmitAll == (Emit /\ n' = Depth) => PrintT("@@" \o hist')
Us == {<<RR("1/3"), RR("1/3"), RR("1/3")>>, <<RR("1/7"), RR("2/7"), RR("4/7")>>, <<RR("1/2"), Zero, RR("1/2")>>}
Laws ==
  /\ BEval(b, One, Zero, Zero) = b.p[1] /\ BEval(b, Zero, One, Zero) = b.p[2] /\ BEval(b, Zero, Zero, One) = b.p[3]
  \* edges only depend on their own three control points
  /\ LET d == [b EXCEPT !.p[3] = P3(50, 50, 50), !.c[2] = P3(-7, 0, 0), !.c[3] = P3(0, 9, 0)] IN
     BEval(d, RR("1/3"), RR("2/3"), Zero) = BEval(b, RR("1/3"), RR("2/3"), Zero)
  \* in the box of the control points; partition of unity
  /\ \A u \in Us : LET q == BEval(b, u[1], u[2], u[3]) P == Points6(b) t == Terms(u[1], u[2], u[3]) IN
       /\ \A k \in 1 .. 3 : (\E i \in 1 .. 6 : RLe(P[i][k], q[k])) /\ (\E i \in 1 .. 6 : RLe(q[k], P[i][k]))
       /\ REq(SumF(LAMBDA i : t[i], 1, 6), One)
       \* affine maps commute with evaluation, and common factors of the weights do not matter
       /\ \A i \in DOMAIN TSs : BEval(Tr(TSs[i]), u[1], u[2], u[3]) = Apply(TSs[i].k, TSs[i].a, q)
       /\ BEval([b EXCEPT !.w = [i \in 1 .. 6 |-> RR(3) \otimes b.w[i]]], u[1], u[2], u[3]) = q
       \* a flat patch with unit weights is the triangle itself
       /\ LET f == FlatPatch(b.p) IN BEval(f, u[1], u[2], u[3]) = VAdd(VScale(u[1], b.p[1]), VAdd(VScale(u[2], b.p[2]), VScale(u[3], b.p[3])))
  \* with unit weights the probes determine the patch
  /\ (b.w = WS[1].w) => LET q == [i \in 1 .. 8 |-> ProbePoint(b, i)] f == FromProbes(q) IN f.p = b.p /\ f.c = b.c /\ Shows(q, Grown(b))
ASSUME \A u \in {Zero, One, RR("1/3"), RR("-1/2"), RR("5/2")} : \A k \in 1 .. 3 : REq(SumF(LAMBDA i : Bernstein(k, i, u), 0, k), One)
ASSUME \A k \in 1 .. 6 : Cardinality(Lattice(k)) = NLat(k)
\* the control points of a point-normal triangle lie in the tangent planes; of a flat one, on it at the thirds
ASSUME LET x == PS[2].p nn == <<P3(0, 0, 1), <<RR("3/5"), RR("4/5"), Zero>>, P3(1, 0, 0)>> r == PNormals(x, nn) IN
       /\ REq(Dot(VSub(r.c[1], x[1]), nn[1]), Zero) /\ REq(Dot(VSub(r.c[3], x[1]), nn[1]), Zero)
       /\ REq(Dot(VSub(r.c[2], x[2]), nn[2]), Zero) /\ REq(Dot(VSub(r.c[5], x[2]), nn[2]), Zero)
       /\ REq(Dot(VSub(r.c[4], x[3]), nn[3]), Zero) /\ REq(Dot(VSub(r.c[6], x[3]), nn[3]), Zero)
ASSUME LET x == <<P3(0, 0, 5), P3(3, 0, 5), P3(0, 6, 5)>> z == P3(0, 0, 1) r == PNormals(x, <<z, z, z>>) IN
       r.c[1] = P3(1, 0, 5) /\ r.c[2] = P3(2, 0, 5) /\ r.c[4] = P3(0, 4, 5) /\ r.m = P3(1, 2, 5)
=============================================================================
