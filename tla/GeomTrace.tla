------------------------------ MODULE GeomTrace ------------------------------
(* Recorded geometric queries (stateless).                                    *)
EXTENDS Geom, Xform, TraceBase
VARIABLE tf     \* transform objects by name: the kind they were last given, and its parameters
GeomVars == <<tf>>
GeomReset == tf' = [x \in {} |-> 0]

E12 == RR("1e-12")
PtStep == /\ Is("g_point")
          /\ LET p == Ev.p q == Ev.q k == Ev.k
                 s == RMax(PMax(p), PMax(q))
                 near(x, y) == PNear(x, y, E12 \otimes PMax(y))
                 ex(x, y) == RLe(RAbs(x[1] \ominus y[1]), E12 \otimes s) /\ RLe(RAbs(x[2] \ominus y[2]), E12 \otimes s) /\ RLe(RAbs(x[3] \ominus y[3]), E12 \otimes s) IN
             /\ Chk("sum", ex(Ev.add, VAdd(p, q)) /\ Ev.iadd = Ev.add)
             /\ Chk("difference", ex(Ev.sub, VSub(p, q)) /\ Ev.isub = Ev.sub)
             /\ Chk("product", near(Ev.mul, VScale(k, p)) /\ near(Ev.imul, VScale(k, p)))
             /\ ~REq(k, Zero) => Chk("quotient", near(Ev.div, VScale(One \oslash k, p)) /\ near(Ev.idiv, VScale(One \oslash k, p)))
             /\ Chk("returns itself", Ev.r1 /\ Ev.r2 /\ Ev.r3 /\ Ev.r4)
             /\ Chk("dot", Near(Ev.dot, Dot(p, q), E12 \otimes PMax(p) \otimes PMax(q)))
             /\ Chk("cross", PNear(Ev.cross, Cross(p, q), E12 \otimes PMax(p) \otimes PMax(q)))
             /\ Chk("distance", Near(Ev.dist2, Dist2(p, q), E12 \otimes RSq(s)))
             /\ Chk("norm", Near(Ev.norm2, Norm2(p), E12 \otimes Norm2(p)) /\ Near(Ev.norm, Len3(p), E12 \otimes Len3(p)))
             /\ RLt(Zero, Norm2(p)) => Chk("unit", /\ PNear(Ev.unit, VScale(One \oslash Len3(p), p), E12)
                                                   /\ PNear(Ev.iunit, VScale(One \oslash Len3(p), p), E12))
             /\ Chk("coordinates", Ev.xyz = p /\ Ev.set = <<q[3], q[1], q[2]>> /\ Ev.origin = P3(0, 0, 0))
             /\ Chk("operands", Ev.p2 = p /\ Ev.q2 = q)
SgStep == /\ Is("g_segment")
          /\ LET L2 == Dist2(Ev.s[1], Ev.s[2]) e == E12 \otimes RSq(ExtentOf(Ev.s)) IN
             /\ Chk("length", Near(Ev.norm2, L2, e) /\ Near(Ev.norm, RSqrt(L2), E12 \otimes ExtentOf(Ev.s)))
             /\ Chk("ends", Ev.get = Ev.s /\ Ev.line = Ev.s /\ Ev.swapped = <<Ev.s[2], Ev.s[1]>> /\ Ev.lswapped = <<Ev.s[2], Ev.s[1]>>)
             /\ Chk("default", Ev.zero = <<P3(0, 0, 0), P3(0, 0, 0)>>)
SgSgStep == /\ Is("g_seg_seg")
            /\ Chk("answer", Ev.ret \in SegSegAnswers(Ev.s, Ev.t))
            /\ (Ev.ret /\ SegSeg(Ev.s, Ev.t).ok) => LET e == RR("1e-6") \otimes RSqrt(SegSeg(Ev.s, Ev.t).a \oplus SegSeg(Ev.s, Ev.t).c) IN
                 Chk("on both", OnSegment(Ev.s, Ev.r, e) /\ OnSegment(Ev.t, Ev.r, e))
TrStep == /\ Is("g_tri")
          /\ LET n == NormalOf(Ev.t) L == Len3(n) s == LongEdge2(Ev.t) IN
             /\ Chk("orthogonal", PNear(Ev.orth, n, GEps \otimes s))
             /\ Chk("surface", Near(Ev.surface, L \oslash RR(2), GEps \otimes s))
             /\ FatTri(Ev.t) => Chk("normal", PNear(Ev.normal, VScale(One \oslash L, n), RR("1e-8")))
             /\ Chk("corners", Ev.get = Ev.t /\ Ev.turned = <<Ev.t[2], Ev.t[3], Ev.t[1]>>)
             /\ Chk("default", Ev.zero = <<P3(0, 0, 0), P3(0, 0, 0), P3(0, 0, 0)>>)
TrPtStep == /\ Is("g_tri_contains")
            /\ (FatTri(Ev.t) /\ Coplanar(Ev.t, Ev.p)) => Chk("answer", Ev.ret \in ContainsAnswers(Ev.t, Ev.p))
TrCutStep == /\ Is("g_tri_cut")
             /\ FatTri(Ev.q) => Chk("answer", Ev.ret \in CutAnswers(Ev.t, Ev.q))
HitOn(q, s) == LET e == RR("1e-8") \otimes ExtentOf(q \o s) IN OnSegment(s, Ev.r, e) /\ OnPlane(q, Ev.r, e)
TrSgStep == /\ Is("g_tri_seg")
            /\ FatTri(Ev.t) =>
               /\ Chk("answer", Ev.ret \in TriSegAnswers(Ev.t, Ev.s))
               /\ Ev.ret => Chk("on both", HitOn(Ev.t, Ev.s) /\ (Steep(Ev.t, Ev.s) => ~Outside(Ev.t, Ev.r, LMargin)))
TrTrStep == /\ Is("g_tri_tri")
            /\ (FatTri(Ev.t) /\ FatTri(Ev.u)) => Chk("answer", Ev.ret \in TriTriAnswers(Ev.t, Ev.u))
PlStep == /\ Is("g_plane")
          /\ FatTri(Ev.t) =>
             LET n == VScale(One \oslash Len3(NormalOf(Ev.t)), NormalOf(Ev.t))
                 e == GEps \otimes RMax(ExtentOf(Ev.t \o <<Ev.p>>), RR("1e-9"))
                 d == Dist(Ev.t, Ev.p)
                 foot == VSub(Ev.p, VScale(d, n)) IN
             /\ Chk("normal", PNear(Ev.normal, n, RR("1e-8")) /\ PNear(<<Ev.abcd[1], Ev.abcd[2], Ev.abcd[3]>>, n, RR("1e-8")))
             /\ Chk("offset", Near(Ev.abcd[4], RNeg(Dot(n, Ev.t[1])), RR(10) \otimes e))
             /\ Chk("distance", Near(Ev.dist, d, RR(10) \otimes e))
             /\ Chk("projection", PNear(Ev.proj, foot, RR(20) \otimes e) /\ PNear(Ev.iproj, foot, RR(20) \otimes e))
PlSgStep == /\ Is("g_plane_seg")
            /\ FatTri(Ev.t) => /\ Chk("answer", Ev.ret \in PlaneSegAnswers(Ev.t, Ev.s))
                               /\ Ev.ret => Chk("on both", HitOn(Ev.t, Ev.s))
PlPlStep == /\ Is("g_plane_plane")
            /\ (FatTri(Ev.t) /\ FatTri(Ev.u)) =>
               LET n == NormalOf(Ev.t) m == NormalOf(Ev.u)
                   s2 == Norm2(Cross(n, m)) \oslash (Norm2(n) \otimes Norm2(m)) IN
               /\ RLe(RR("1e-10") , s2) => Chk("planes cross", Ev.ret)
               /\ RLe(s2, RR("1e-20")) => Chk("parallel planes", ~Ev.ret)
               /\ (Ev.ret /\ RLe(RR("1e-4"), s2)) =>
                  LET e == RR("1e-6") \otimes RMax(One, ExtentOf(Ev.t \o Ev.u)) IN
                  /\ Chk("line", RLt(Zero, Dist2(Ev.line[1], Ev.line[2])))
                  /\ Chk("on both", \A k \in 1 .. 2 : OnPlane(Ev.t, Ev.line[k], e) /\ OnPlane(Ev.u, Ev.line[k], e))
BoxStep == /\ Is("g_bbox") /\ Chk("answer", Ev.ret = BoxesMeet(Ev.a, Ev.b) /\ Ev.rev = BoxesMeet(Ev.a, Ev.b))
AxisStep == /\ Is("g_axis") /\ Chk("unit", Near(Norm2(Ev.r), One, E12)) /\ Chk("repeatable", Ev.again = Ev.r)

\* transforms of points (C12)
XApplyStep == Is("x_apply") /\ Chk("moved", Moved(Ev.k, Ev.a, Ev.p, Ev.r))
XApplyAllStep == Is("x_apply_all") /\ Chk("moved", MovedAll(Ev.k, Ev.a, Ev.ps, Ev.r))
\* the matrix of a rotation moves every basis vector as the transform does
XMatrixStep == Is("x_matrix") /\ Chk("matrix", \A k \in 1 .. 3 :
                  LET b == [j \in 1 .. 3 |-> IF j = k THEN One ELSE Zero]
                      col == <<Ev.r[k], Ev.r[3 + k], Ev.r[6 + k]>> IN
                  Moved(Ev.k, Ev.a, b, col))
\* transform objects (C12): whatever was set before, the last setting counts
TPut == tf' = [n \in DOMAIN tf \cup {Ev.m} |-> IF n = Ev.m THEN [k |-> Ev.k, a |-> Ev.a] ELSE tf[n]]
XObjStep == \/ (Is("t_new") \/ Is("t_set")) /\ TPut
            \/ Is("t_copy") /\ tf' = [n \in DOMAIN tf \cup {Ev.m} |-> IF n = Ev.m THEN tf[Ev.f] ELSE tf[n]]
            \/ Is("t_apply") /\ UNCHANGED tf /\ Chk("moved", MovedAll(tf[Ev.m].k, tf[Ev.m].a, Ev.ps, Ev.r) /\ MovedAll(tf[Ev.m].k, tf[Ev.m].a, Ev.ps, Ev.one))
QueryStep == PtStep \/ SgStep \/ SgSgStep \/ TrStep \/ TrPtStep \/ TrCutStep \/ TrSgStep \/ TrTrStep \/ PlStep \/ PlSgStep \/ PlPlStep
            \/ BoxStep \/ AxisStep \/ XApplyStep \/ XApplyAllStep \/ XMatrixStep
GeomStep == XObjStep \/ (UNCHANGED GeomVars /\ QueryStep)
=============================================================================
