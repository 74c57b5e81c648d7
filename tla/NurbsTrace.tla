------------------------------ MODULE NurbsTrace ------------------------------
(* Recorded histories of curves, surfaces and surface solids: setters,        *)
(* evaluation, refinement, construction, sampling and copies.                 *)
EXTENDS Nurbs, MeshOpsTrace
VARIABLES cs,   \* curves by name
          ns,   \* surfaces by name
          os    \* surface solids by name: sequences of surfaces
NurbsVars == <<cs, ns, os>>
NurbsReset == cs' = Empty /\ ns' = Empty /\ os' = Empty

CState(x) == [d |-> x.d, k |-> x.k, w |-> x.w, p |-> x.p]
CLog == [n \in DOMAIN Ev.cs |-> CState(Ev.cs[n])]
NLog == Ev.ns
OLog == Ev.os
GetC(n) == IF n \in DOMAIN cs THEN cs[n] ELSE NoCurve
GetN(n) == IF n \in DOMAIN ns THEN ns[n] ELSE NoSurface
GetO(n) == IF n \in DOMAIN os THEN os[n] ELSE <<>>
\* only the objects named in C, N, O may have changed; those in Q may have been created empty
NTables(C, N, O) ==
  /\ Chk("untouched curves", \A n \in DOMAIN CLog \ C : CLog[n] = GetC(n))
  /\ Chk("untouched surfaces", \A n \in DOMAIN NLog \ N : NLog[n] = GetN(n))
  /\ Chk("untouched solids", \A n \in DOMAIN OLog \ O : OLog[n] = GetO(n))
  /\ Chk("objects", DOMAIN cs \cup C \subseteq DOMAIN CLog /\ DOMAIN ns \cup N \subseteq DOMAIN NLog /\ DOMAIN os \cup O \subseteq DOMAIN OLog)
  /\ Chk("point counts", \A n \in C : Ev.cs[n].n = Len(Ev.cs[n].p))
  /\ cs' = CLog /\ ns' = NLog /\ os' = OLog
OnlyC == NTables({Ev.m}, {}, {}) /\ UNCHANGED MeshVars
OnlyN == NTables({}, {Ev.m}, {}) /\ UNCHANGED MeshVars
OnlyO == NTables({}, {}, {Ev.m}) /\ UNCHANGED MeshVars
Read  == NTables({}, {}, {}) /\ UNCHANGED MeshVars
C0 == GetC(Ev.m)
C1 == CLog[Ev.m]
N0 == GetN(Ev.m)
N1 == NLog[Ev.m]
O0 == GetO(Ev.m)
O1 == OLog[Ev.m]
CIs(o) == OnlyC /\ Chk("outcome", C1 = o)
NIs(o) == OnlyN /\ Chk("outcome", N1 = o)
OIs(o) == OnlyO /\ Chk("outcome", O1 = o)

\* ------------------------------------------------------- curves: setters, copies
CSetStep ==
  \/ (Is("c_new") \/ Is("c_clear")) /\ CIs(NoCurve)
  \/ Is("c_degree") /\ CIs([C0 EXCEPT !.d = Ev.d])
  \/ Is("c_knots") /\ OnlyC /\ Chk("others", [C1 EXCEPT !.k = C0.k] = C0) /\ Chk("rescaled", SameKnots(C1.k, Rescaled(Ev.a)))
  \/ Is("c_uniform") /\ OnlyC /\ Chk("others", [C1 EXCEPT !.k = C0.k] = C0) /\ Chk("uniform", SameKnots(C1.k, UniformKnots(C0.d, Len(C0.p))))
  \/ Is("c_weights") /\ CIs([C0 EXCEPT !.w = Ev.a])
  \/ Is("c_equal") /\ CIs([C0 EXCEPT !.w = Ones(Len(C0.p))])
  \/ Is("c_points") /\ CIs([C0 EXCEPT !.p = Ev.a])
  \/ Is("c_move") /\ Ev.i \in 0 .. Len(C0.p) - 1 /\ CIs([C0 EXCEPT !.p = [@ EXCEPT ![Ev.i + 1] = Ev.p]])
  \/ (Is("c_copy") \/ Is("c_assign")) /\ CIs(GetC(Ev.f))

\* ------------------------------------------------------- curves: evaluation
EvalStep == /\ Is("c_eval") /\ Read
            /\ EvalCurve(C0)
            /\ LET eps == NEps \otimes ExtentP(C0.p) IN
               /\ Chk("samples", Len(Ev.r) = Len(Ev.u))
               /\ \A i \in DOMAIN Ev.u : Chk("point", PNear(Ev.r[i], CurveAt(C0, Ev.u[i]), eps))
PolyStep == /\ Is("c_poly") /\ Read
            /\ IF C0.p = <<>> THEN Chk("empty", Ev.r = <<>>)
               ELSE LET n == 10 * Len(C0.p) eps == NEps \otimes ExtentP(C0.p) IN
                    /\ Chk("samples", Len(Ev.r) = n + 1)
                    /\ Chk("points", \A i \in DOMAIN Ev.r : PNear(Ev.r[i], CurveAt(C0, RDiv(RR(i - 1), RR(n))), eps))
\* whether the ends coincide; a distance within 1e-9 of the tolerance may go either way
EndDist2(c) == Dist2(c.p[1], c.p[Len(c.p)])
ClosedIs(c, tol, b) ==
  IF Len(c.p) <= 1 THEN ~b
  ELSE LET d2 == EndDist2(c) t2 == RSq(tol) IN
       IF SimplePoint(c.p[1]) /\ SimplePoint(c.p[Len(c.p)]) /\ Simple(tol) THEN b = RLt(d2, t2)
       ELSE IF RLt(d2, (One \ominus NEps) \otimes t2) THEN b ELSE IF RLt((One \oplus NEps) \otimes t2, d2) THEN ~b ELSE TRUE
ClosedStep == /\ (Is("c_closed") \/ Is("c_closed_default")) /\ Read
              /\ RLt(Zero, Ev.tol)
              /\ Chk("closed", ClosedIs(C0, Ev.tol, Ev.ret))
SpanStep == /\ Is("g_span") /\ UNCHANGED <<MeshVars, NurbsVars>>
            /\ Chk("spans", Len(Ev.r) = Len(Ev.t) /\ \A i \in DOMAIN Ev.t : Ev.r[i] + 1 \in 1 .. Len(Ev.k) - 1 /\ Lies(Ev.k, Ev.r[i] + 1, Ev.t[i]))

\* ------------------------------------------------------- curves: refinement
InsertStep == /\ Is("c_insert") /\ OnlyC
              /\ WellFormedCurve(C0) /\ InDomain(C0.k, C0.d, Ev.u)
              /\ Chk("degree", C1.d = C0.d)
              /\ Chk("knots", SameKnots(C1.k, Inserted(C0.k, Ev.u)) /\ Sorted(C1.k) /\ InUnit(C1.k))
              /\ Chk("counts", Len(C1.p) = Len(C0.p) + 1 /\ Len(C1.w) = Len(C1.p))
              /\ Chk("well formed", WellFormedCurve(C1))
              /\ Chk("same curve", SameCurve(C1, C0, NEps \otimes ExtentP(C0.p)))
ElevateStep ==
  /\ Is("c_elevate") /\ OnlyC
  /\ WellFormedCurve(C0) /\ Standard(C0.k, C0.d)
  /\ IF ~Ev.ret THEN Chk("unchanged", C1 = C0) /\ Chk("refused", C0.d >= 3)
     ELSE /\ Chk("degree", C1.d = C0.d + 1)
          /\ Chk("knots", SameKnots(C1.k, Raised(C0.k)) /\ Sorted(C1.k) /\ InUnit(C1.k))
          /\ Chk("well formed", WellFormedCurve(C1))
          /\ Chk("same curve", SameCurve(C1, C0, NEps \otimes ExtentP(C0.p)))
\* ------------------------------------------------------- curves: factory
Quarter(i) == RDiv(RR(i), RR(4))
CircleStep == /\ Is("c_circle") /\ OnlyC
              /\ RLt(Zero, Ev.r)
              /\ Chk("well formed", WellFormedCurve(C1) /\ Clamped(C1.k, C1.d))
              /\ LET eps == NEps \otimes Ev.r IN
                 /\ Chk("on the circle", \A u \in Probes(C1.k) : LET q == CurveAt(C1, u) IN
                        Near(q[3], Zero, eps) /\ Near(RSq(q[1]) \oplus RSq(q[2]), RSq(Ev.r), eps \otimes Ev.r))
                 /\ Chk("full turn", \E s \in {1, -1} : \A i \in 0 .. 4 : LET q == CurveAt(C1, Quarter(i)) IN
                        PNear(q, VScale(Ev.r, CASE i \in {0, 4} -> P3(1, 0, 0) [] i = 1 -> P3(0, s, 0) [] i = 2 -> P3(-1, 0, 0) [] i = 3 -> P3(0, -s, 0)), eps))
FromPointsStep == /\ Is("c_from_points") /\ OnlyC
                  /\ Chk("outcome", C1.d = Ev.d /\ C1.p = Ev.a /\ C1.w = Ones(Len(Ev.a)))
                  /\ Chk("uniform", SameKnots(C1.k, UniformKnots(Ev.d, Len(Ev.a))))

\* ------------------------------------------------------- surfaces: setters, copies
NSetStep ==
  \/ (Is("n_new") \/ Is("n_clear")) /\ NIs(NoSurface)
  \/ Is("n_degree") /\ NIs([N0 EXCEPT !.du = Ev.du, !.dv = Ev.dv])
  \/ Is("n_knots_u") /\ OnlyN /\ Chk("others", [N1 EXCEPT !.ku = N0.ku] = N0) /\ Chk("rescaled", SameKnots(N1.ku, Rescaled(Ev.a)))
  \/ Is("n_knots_v") /\ OnlyN /\ Chk("others", [N1 EXCEPT !.kv = N0.kv] = N0) /\ Chk("rescaled", SameKnots(N1.kv, Rescaled(Ev.a)))
  \/ Is("n_uniform_u") /\ OnlyN /\ Chk("others", [N1 EXCEPT !.ku = N0.ku] = N0) /\ Chk("uniform", SameKnots(N1.ku, UniformKnots(N0.du, N0.nu)))
  \/ Is("n_uniform_v") /\ OnlyN /\ Chk("others", [N1 EXCEPT !.kv = N0.kv] = N0) /\ Chk("uniform", SameKnots(N1.kv, UniformKnots(N0.dv, N0.nv)))
  \/ Is("n_weights") /\ NIs([N0 EXCEPT !.w = Ev.a])
  \/ Is("n_equal") /\ NIs([N0 EXCEPT !.w = Ones(Len(N0.p))])
  \/ Is("n_points") /\ NIs([N0 EXCEPT !.p = Ev.a, !.nu = Ev.nu, !.nv = Ev.nv])
  \/ Is("n_move") /\ Ev.i \in 0 .. Len(N0.p) - 1 /\ NIs([N0 EXCEPT !.p = [@ EXCEPT ![Ev.i + 1] = Ev.p]])
  \/ Is("n_weight") /\ Ev.i \in 0 .. Len(N0.w) - 1 /\ NIs([N0 EXCEPT !.w = [@ EXCEPT ![Ev.i + 1] = Ev.w]])
  \/ Is("n_closed_u") /\ NIs([N0 EXCEPT !.cu = (Ev.b # 0)])
  \/ Is("n_closed_v") /\ NIs([N0 EXCEPT !.cv = (Ev.b # 0)])
  \/ (Is("n_copy") \/ Is("n_assign")) /\ NIs(GetN(Ev.f))
SameBut(s, t) == [s EXCEPT !.p = t.p] = t
NTransformStep == /\ Is("n_transform") /\ OnlyN
                  /\ Chk("others", SameBut(N1, N0))
                  /\ Chk("moved points", MovedAll(Ev.k, Ev.a, N0.p, N1.p))

\* ------------------------------------------------------- surfaces: evaluation, refinement
NEvalStep == /\ Is("n_eval") /\ Read
             /\ EvalSurface(N0)
             /\ LET eps == NEps \otimes ExtentP(N0.p) IN
                /\ Chk("samples", Len(Ev.r) = Len(Ev.u))
                /\ \A i \in DOMAIN Ev.u : Chk("point", PNear(Ev.r[i], SurfAt(N0, Ev.u[i], Ev.v[i]), eps))
Consistent(s) == WellFormedSurface(s) /\ InUnit(s.ku) /\ InUnit(s.kv) /\ s.cu = N0.cu /\ s.cv = N0.cv
NInsertStep ==
  /\ Is("n_insert_u") \/ Is("n_insert_v")
  /\ OnlyN /\ WellFormedSurface(N0)
  /\ Chk("degrees", N1.du = N0.du /\ N1.dv = N0.dv)
  /\ Chk("consistent", Consistent(N1))
  /\ IF Is("n_insert_u")
     THEN Chk("counts", N1.nu = N0.nu + 1 /\ N1.nv = N0.nv) /\ Chk("knots", SameKnots(N1.ku, Inserted(N0.ku, Ev.u)) /\ SameKnots(N1.kv, N0.kv))
     ELSE Chk("counts", N1.nv = N0.nv + 1 /\ N1.nu = N0.nu) /\ Chk("knots", SameKnots(N1.kv, Inserted(N0.kv, Ev.u)) /\ SameKnots(N1.ku, N0.ku))
  /\ Chk("same surface", SameSurf(N1, N0, NEps \otimes ExtentP(N0.p)))
NElevateStep ==
  /\ Is("n_elevate_u") \/ Is("n_elevate_v")
  /\ OnlyN /\ WellFormedSurface(N0)
  /\ LET u == Is("n_elevate_u")
         d == IF u THEN N0.du ELSE N0.dv IN
     /\ Standard(IF u THEN N0.ku ELSE N0.kv, d)
     /\ IF ~Ev.ret THEN Chk("unchanged", N1 = N0) /\ Chk("refused", d >= 3)
        ELSE /\ Chk("degrees", IF u THEN N1.du = d + 1 /\ N1.dv = N0.dv ELSE N1.dv = d + 1 /\ N1.du = N0.du)
             /\ Chk("consistent", Consistent(N1))
             /\ Chk("knots", IF u THEN SameKnots(N1.ku, Raised(N0.ku)) /\ SameKnots(N1.kv, N0.kv)
                                   ELSE SameKnots(N1.kv, Raised(N0.kv)) /\ SameKnots(N1.ku, N0.ku))
             /\ Chk("same surface", SameSurf(N1, N0, NEps \otimes ExtentP(N0.p)))

\* ------------------------------------------------------- construction (C16)
UProbes(c, s) == FewProbes(c.k) \cup FewProbes(s.ku)
Unit3 == {Zero, RR("3/8"), One}
ExtrudeStep ==
  /\ Is("n_extrude") /\ OnlyN
  /\ LET c == GetC(Ev.f) eps == NEps \otimes RMax(ExtentP(c.p), PMax(Ev.dir)) IN
     /\ WellFormedCurve(c)
     /\ Chk("done", Ev.ret) /\ Chk("well formed", WellFormedSurface(N1))
     /\ Chk("closed flags", ~N1.cv /\ ClosedIs(c, RR("1e-6"), N1.cu))
     /\ \A u \in UProbes(c, N1) : \A v \in Unit3 :
          Chk("translated", PNear(SurfAt(N1, u, v), VAdd(CurveAt(c, u), VScale(v, Ev.dir)), eps))
OnSegment(q, a, b, eps) ==
  LET e == VSub(b, a) n == Norm2(e) t == Dot(VSub(q, a), e) \oslash n IN
  IF RLe(n, RSq(eps)) THEN PNear(q, a, RR(4) \otimes eps)
  ELSE RLe(RNeg(NEps), t) /\ RLe(t, One \oplus NEps) /\ PNear(q, VAdd(a, VScale(t, e)), eps)
RuledStep ==
  /\ Is("n_ruled") /\ OnlyN
  /\ LET c == GetC(Ev.f) d == GetC(Ev.g) eps == RR(4) \otimes NEps \otimes RMax(ExtentP(c.p), ExtentP(d.p)) IN
     IF ~Ev.ret THEN Chk("refused", c.d # d.d \/ c.k # d.k \/ Len(c.p) # Len(d.p))
     ELSE /\ WellFormedCurve(c) /\ WellFormedCurve(d)
          /\ Chk("well formed", WellFormedSurface(N1))
          /\ Chk("closed flags", ~N1.cv /\ ((N1.cu => ClosedIs(c, RR("1e-6"), TRUE) /\ ClosedIs(d, RR("1e-6"), TRUE))
                                  /\ (~N1.cu => ClosedIs(c, RR("1e-6"), FALSE) \/ ClosedIs(d, RR("1e-6"), FALSE))))
          /\ \A u \in UProbes(c, N1) \cup FewProbes(d.k) :
               LET a == CurveAt(c, u) b == CurveAt(d, u) IN
               /\ Chk("first border", PNear(SurfAt(N1, u, Zero), a, eps))
               /\ Chk("second border", PNear(SurfAt(N1, u, One), b, eps))
               /\ Chk("straight", OnSegment(SurfAt(N1, u, RR("1/4")), a, b, eps) /\ OnSegment(SurfAt(N1, u, RR("2/3")), a, b, eps))
RadZ(q) == <<RSq(q[1]) \oplus RSq(q[2]), q[3]>>
Turned(p, i, s) ==       \* p after i quarter turns in direction s
  CASE i \in {0, 4} -> p
    [] i = 1 -> IF s > 0 THEN <<RNeg(p[2]), p[1], p[3]>> ELSE <<p[2], RNeg(p[1]), p[3]>>
    [] i = 2 -> <<RNeg(p[1]), RNeg(p[2]), p[3]>>
    [] i = 3 -> IF s > 0 THEN <<p[2], RNeg(p[1]), p[3]>> ELSE <<RNeg(p[2]), p[1], p[3]>>
RevolveStep ==
  /\ Is("n_revolve") /\ OnlyN
  /\ LET c == GetC(Ev.f) e == ExtentP(c.p) eps == NEps \otimes e IN
     /\ WellFormedCurve(c)
     /\ Chk("done", Ev.ret) /\ Chk("well formed", WellFormedSurface(N1))
     /\ Chk("closed flags", N1.cu /\ ClosedIs(c, RR("1e-6"), N1.cv))
     /\ \A v \in FewProbes(c.k) \cup FewProbes(N1.kv) :
          LET p == CurveAt(c, v) IN
          \A u \in FewProbes(N1.ku) :
            LET q == SurfAt(N1, u, v) IN
            /\ Chk("height", Near(q[3], p[3], eps))
            /\ Chk("radius", Near(RadZ(q)[1], RadZ(p)[1], RR(8) \otimes eps \otimes e))
     /\ Chk("full turn", \E s \in {1, -1} : \A v \in FewProbes(c.k) : \A i \in 0 .. 4 :
                            PNear(SurfAt(N1, Quarter(i), v), Turned(CurveAt(c, v), i, s), RR(4) \otimes eps))

\* ------------------------------------------------------- factory surfaces (C17)
P_(a, i) == <<a[3 * i + 1], a[3 * i + 2], a[3 * i + 3]>>
Grid16(s) == {SurfAt(s, Quarter(i), Quarter(j)) : i \in 0 .. 4, j \in 0 .. 4}
Covers(s, Q, eps) == LET G == Grid16(s) IN \A q \in Q : \E g \in G : PNear(g, q, eps)
Ring(R, z) == {<<R, Zero, z>>, <<Zero, R, z>>, <<RNeg(R), Zero, z>>, <<Zero, RNeg(R), z>>}
SurfProbes(s) == {SurfAt(s, x[1], x[2]) : x \in Thin(FewProbes(s.ku) \X FewProbes(s.kv))}
Bilinear(a, u, v) == VAdd(VAdd(VScale((One \ominus u) \otimes (One \ominus v), P_(a, 0)), VScale(u \otimes (One \ominus v), P_(a, 1))),
                          VAdd(VScale(u \otimes v, P_(a, 2)), VScale((One \ominus u) \otimes v, P_(a, 3))))
\* the patch is the triangle x: its corners in order (one of them twice), and no point outside
Corners(s) == <<SurfAt(s, Zero, Zero), SurfAt(s, One, Zero), SurfAt(s, One, One), SurfAt(s, Zero, One)>>
QuadVec(x) == Cross(VSub(x[3], x[1]), VSub(x[4], x[2]))       \* twice the area vector
IsTriPatch(s, x) ==
  LET e == RMax(PMax(x[1]), RMax(PMax(x[2]), PMax(x[3])))
      eps == NEps \otimes RMax(e, RR("1e-300"))
      c == Corners(s)
      n == Cross(VSub(x[2], x[1]), VSub(x[3], x[1])) IN
  /\ WellFormedSurface(s) /\ ~s.cu /\ ~s.cv
  /\ \A i \in 1 .. 3 : \E j \in 1 .. 4 : PNear(c[j], x[i], eps)
  /\ \A j \in 1 .. 4 : \E i \in 1 .. 3 : PNear(c[j], x[i], eps)
  /\ PNear(QuadVec(c), n, eps \otimes e \otimes RR(8))
  /\ RLt(eps \otimes e, RSqrt(Norm2(n))) => \A q \in SurfProbes(s) : InTriangle(q, x, RR(8) \otimes eps)
FactorySurface(k, a, s) ==
  LET e == MaxF(LAMBDA i : RAbs(a[i]), 1, Len(a))
      eps == NEps \otimes e IN
  CASE k = "quad" -> /\ ~s.cu /\ ~s.cv
                     /\ \A x \in Thin(FewProbes(s.ku) \X FewProbes(s.kv)) : PNear(SurfAt(s, x[1], x[2]), Bilinear(a, x[1], x[2]), eps)
    [] k = "triangle" -> IsTriPatch(s, <<P_(a, 0), P_(a, 1), P_(a, 2)>>)
    [] k = "disk" -> /\ \A q \in SurfProbes(s) : Near(q[3], Zero, eps) /\ RLe(RadZ(q)[1], RSq(e) \otimes (One \oplus NEps))
                     /\ Covers(s, {P3(0, 0, 0)} \cup Ring(e, Zero), eps)
                     /\ s.cu /\ ~s.cv
    [] k = "sphere" -> /\ \A q \in SurfProbes(s) : OnSphere(q, e)
                       /\ Covers(s, {<<Zero, Zero, e>>, <<Zero, Zero, RNeg(e)>>} \cup Ring(e, Zero), eps)
                       /\ s.cu /\ ~s.cv
    [] k = "torus" -> /\ \A q \in SurfProbes(s) : OnTorus(q, a[1], a[2])
                      /\ Covers(s, Ring(a[1] \oplus a[2], Zero) \cup Ring(a[1] \ominus a[2], Zero) \cup Ring(a[1], a[2]) \cup Ring(a[1], RNeg(a[2])), RR(4) \otimes eps)
                      /\ s.cu /\ s.cv
NFactoryStep == /\ Is("n_factory") /\ OnlyN
                /\ Chk("well formed", WellFormedSurface(N1))
                /\ Chk("ideal surface", FactorySurface(Ev.k, Ev.a, N1))
NFromZStep == /\ Is("n_from_z") /\ OnlyN
              /\ Chk("control points", N1.nu = Ev.w /\ N1.nv = Ev.h /\ Len(N1.p) = Ev.w * Ev.h
                     /\ \A i \in 0 .. Ev.w - 1 : \A j \in 0 .. Ev.h - 1 : N1.p[i + Ev.w * j + 1] = <<RR(i), RR(j), Ev.z[i + Ev.w * j + 1]>>)
              /\ Chk("structure", N1.du = Ev.d /\ N1.dv = Ev.d /\ N1.w = Ones(Len(N1.p)) /\ ~N1.cu /\ ~N1.cv
                     /\ SameKnots(N1.ku, UniformKnots(Ev.d, Ev.w)) /\ SameKnots(N1.kv, UniformKnots(Ev.d, Ev.h)))

\* ------------------------------------------------------- solids
OSetStep ==
  \/ (Is("o_new") \/ Is("o_clear")) /\ OIs(<<>>)
  \/ Is("o_add") /\ OIs(Append(O0, GetN(Ev.f)))
  \/ Is("o_move") /\ Ev.s \in 0 .. Len(O0) - 1 /\ Ev.i \in 0 .. Len(O0[Ev.s + 1].p) - 1
                  /\ OIs([O0 EXCEPT ![Ev.s + 1] = [@ EXCEPT !.p = [@ EXCEPT ![Ev.i + 1] = Ev.p]]])
  \/ (Is("o_copy") \/ Is("o_assign")) /\ OIs(GetO(Ev.f))
OTransformStep == /\ Is("o_transform") /\ OnlyO
                  /\ Chk("others", Len(O1) = Len(O0) /\ \A i \in DOMAIN O0 : SameBut(O1[i], O0[i]))
                  /\ Chk("moved points", \A i \in DOMAIN O0 : MovedAll(Ev.k, Ev.a, O0[i].p, O1[i].p))
\* a = sizes; box x,y,z; cylinder radius, height; sphere radius; torus radii
OnSolid(k, a, q) ==
  LET h == RR("1/2") IN
  CASE k = "box" -> /\ \A j \in 1 .. 3 : RLe(RAbs(q[j]), (h \otimes a[j]) \otimes (One \oplus NEps))
                    /\ \E j \in 1 .. 3 : Near(RAbs(q[j]), h \otimes a[j], NEps \otimes a[j])
    [] k = "cylinder" -> LET r2 == RadZ(q)[1] IN
                    /\ RLe(r2, RSq(a[1]) \otimes (One \oplus NEps)) /\ RLe(RAbs(q[3]), (h \otimes a[2]) \otimes (One \oplus NEps))
                    /\ Near(r2, RSq(a[1]), NEps \otimes RSq(a[1])) \/ Near(RAbs(q[3]), h \otimes a[2], NEps \otimes a[2])
    [] k = "sphere" -> OnSphere(q, a[1])
    [] k = "torus" -> OnTorus(q, a[1], a[2])
SolidVolume(k, a) ==
  CASE k = "box" -> a[1] \otimes a[2] \otimes a[3]
    [] k = "cylinder" -> RPi \otimes RSq(a[1]) \otimes a[2]
    [] k = "sphere" -> RR("4/3") \otimes RPi \otimes Cube(a[1])
    [] k = "torus" -> RR(2) \otimes RSq(RPi) \otimes a[1] \otimes RSq(a[2])
FactorySolid(k, a, o) == /\ o # <<>>
                         /\ \A i \in DOMAIN o : WellFormedSurface(o[i])
                         /\ \A i \in DOMAIN o : \A q \in SurfProbes(o[i]) : OnSolid(k, a, q)
OFactoryStep == /\ Is("o_factory") /\ OnlyO
                /\ Chk("ideal solid", FactorySolid(Ev.k, Ev.a, O1))
OFromMeshStep == /\ Is("o_from_mesh") /\ NTables({}, {}, {Ev.m}) /\ Frame(New(Ev.f))
                 /\ LET m == Get(Ev.f) t == LiveSeq(m) IN
                    /\ Chk("one patch per triangle", Len(O1) = Len(t))
                    /\ Chk("patches", \A i \in DOMAIN t : IsTriPatch(O1[i], <<Pos(m, t[i][1]), Pos(m, t[i][2]), Pos(m, t[i][3])>>))

\* objects that were filled by the same operation
TwinNStep == \/ Is("c_twin") /\ Read /\ Chk("same curve", GetC(Ev.m) = GetC(Ev.f))
             \/ Is("n_twin") /\ Read /\ Chk("same surface", GetN(Ev.m) = GetN(Ev.f))
             \/ Is("o_twin") /\ Read /\ Chk("same solid", GetO(Ev.m) = GetO(Ev.f))
\* ------------------------------------------------------- sampling (C18)
\* o is m with the samples of s appended: (n nu + 1)(n nv + 1) vertices row by row, two triangles per cell
Samples(s, n) ==
  LET NU == n * s.nu NV_ == n * s.nv
      bu == TLCEval([i \in 1 .. NU + 1 |-> BasAt(s.ku, s.du, RDiv(RR(i - 1), RR(NU)))])
      bv == TLCEval([j \in 1 .. NV_ + 1 |-> BasAt(s.kv, s.dv, RDiv(RR(j - 1), RR(NV_)))]) IN
  [x \in 1 .. (NU + 1) * (NV_ + 1) |-> SurfAtB(s, bu[((x - 1) % (NU + 1)) + 1], bv[((x - 1) \div (NU + 1)) + 1])]
Sampled(m, s, n, o) ==
  IF Len(s.p) = 0 THEN Chk("nothing to sample", o = m)
  ELSE
  LET NU == n * s.nu NV_ == n * s.nv
      b == Len(m.v) bt == Len(m.t)
      P == Samples(s, n)
      eps == NEps \otimes ExtentP(s.p)
      t == SubSeq(o.t, bt + 1, Len(o.t))
      T == TLCEval({Norm3(t[i]) : i \in DOMAIN t})
      id(i, j) == b + (IF s.cu /\ i = NU THEN 0 ELSE i) + (NU + 1) * (IF s.cv /\ j = NV_ THEN 0 ELSE j) IN
  /\ Chk("kept", o.c = m.c /\ SubSeq(o.v, 1, b) = m.v /\ SubSeq(o.t, 1, bt) = m.t)
  /\ Chk("vertex count", Len(o.v) = b + Len(P))
  /\ Chk("vertices", \A x \in DOMAIN P : PNear(o.v[b + x], P[x], eps))
  /\ Chk("triangle count", Len(t) = 2 * NU * NV_ /\ (Cardinality(T) = Len(t) \/ (s.cu /\ s.cv /\ NU = 2 /\ NV_ = 2)) /\ \A i \in DOMAIN t : t[i] # <<>>)
  /\ Chk("cells", \A i \in 0 .. NU - 1 : \A j \in 0 .. NV_ - 1 :
       LET p == id(i, j) q == id(i + 1, j) r == id(i + 1, j + 1) u == id(i, j + 1) IN
       {Norm3(x) : x \in Range(QuadA(p, q, r, u))} \subseteq T \/ {Norm3(x) : x \in Range(QuadB(p, q, r, u))} \subseteq T)
NMeshStep == /\ Is("n_mesh") /\ NTables({}, {}, {}) /\ Frame({Ev.m})
             /\ Ev.n >= 1
             /\ Sampled(IF Ev.clear = 0 THEN Get(Ev.m) ELSE Clear(Get(Ev.m)), GetN(Ev.f), Ev.n, After)
\* the mesh of a solid: its surfaces one after the other
SurfVerts(s, n) == IF Len(s.p) = 0 THEN 0 ELSE (n * s.nu + 1) * (n * s.nv + 1)
SurfTris(s, n) == 2 * n * s.nu * n * s.nv
RECURSIVE SolidSampled(_, _, _, _)
SolidSampled(o, i, n, m) ==        \* the first i surfaces make up m
  IF i = 0 THEN Chk("nothing more", m.v = <<>> /\ m.t = <<>>)
  ELSE LET v == Len(m.v) - SurfVerts(o[i], n) t == Len(m.t) - SurfTris(o[i], n) IN
       /\ Chk("size", v >= 0 /\ t >= 0)
       /\ LET r == [m EXCEPT !.v = SubSeq(@, 1, v), !.t = SubSeq(@, 1, t)] IN
          /\ Sampled(r, o[i], n, m)
          /\ SolidSampled(o, i - 1, n, r)
OMeshStep == /\ Is("o_mesh") /\ NTables({}, {}, {}) /\ Frame({Ev.m})
             /\ Ev.n >= 1
             /\ LET o == GetO(Ev.f) IN
                /\ Chk("colour", After.c = Get(Ev.m).c)
                /\ SolidSampled(o, Len(o), Ev.n, After)
\* a factory solid and its mesh: closed where patches meet, about the ideal volume, outside out
NoDegenerate(t) == SelectSeq(t, LAMBDA x : x[1] # x[2] /\ x[2] # x[3] /\ x[1] # x[3])
OShapeStep == /\ Is("o_shape") /\ NTables({}, {}, {Ev.f}) /\ Frame({Ev.m})
              /\ Chk("ideal solid", FactorySolid(Ev.k, Ev.a, OLog[Ev.f]))
              /\ SolidSampled(OLog[Ev.f], Len(OLog[Ev.f]), Ev.n, After)
              /\ LET t == NoDegenerate(Welded(After, Ev.weld))
                     v == SolidVolume(Ev.k, Ev.a)
                     x == SixVolume(After) \oslash RR(6)
                     tol == IF Ev.k = "box" THEN NEps ELSE RR("0.8") \oslash RR(Ev.n * Ev.n) IN
                 /\ Chk("weld", WeldOk(After, Ev.weld, MaxF(LAMBDA i : RAbs(Ev.a[i]), 1, Len(Ev.a))))
                 /\ Chk("closed", t # <<>> /\ ManifoldSeq(t))
                 /\ Chk("volume", RLe(v \otimes (One \ominus tol), x) /\ RLe(x, v \otimes (One \oplus (IF Ev.k = "torus" THEN tol ELSE NEps))))
\* the control grid as a mesh: two triangles over every cell, given by positions
NCtrlStep == /\ Is("n_ctrl") /\ NTables({}, {}, {}) /\ Frame({Ev.m})
             /\ LET s == GetN(Ev.f)
                    T == TLCEval({LET x == Tri(After, i - 1) IN <<x[1], x[2], x[3]>> : i \in Live(After)})
                    Rots(x) == {<<x[1], x[2], x[3]>>, <<x[2], x[3], x[1]>>, <<x[3], x[1], x[2]>>}
                    has(x) == Rots(x) \cap T # {}
                    q(i, j) == s.p[i + s.nu * j + 1] IN
                /\ Chk("colour", After.c = Get(Ev.m).c)
                /\ Chk("triangle count", Len(After.t) = (IF s.nu > 1 /\ s.nv > 1 THEN 2 * (s.nu - 1) * (s.nv - 1) ELSE 0) /\ Cardinality(Live(After)) = Len(After.t))
                /\ Chk("cells", \A i \in 0 .. s.nu - 2 : \A j \in 0 .. s.nv - 2 :
                     LET a == q(i, j) b == q(i + 1, j) c == q(i + 1, j + 1) d == q(i, j + 1) IN
                     (has(<<a, b, c>>) /\ has(<<c, d, a>>)) \/ (has(<<b, c, d>>) /\ has(<<d, a, b>>)))

NurbsStep == \/ CSetStep \/ EvalStep \/ PolyStep \/ ClosedStep \/ SpanStep \/ InsertStep \/ ElevateStep \/ CircleStep \/ FromPointsStep
             \/ NSetStep \/ NTransformStep \/ NEvalStep \/ NInsertStep \/ NElevateStep \/ ExtrudeStep \/ RuledStep \/ RevolveStep
             \/ NFactoryStep \/ NFromZStep \/ OSetStep \/ OTransformStep \/ OFactoryStep \/ OFromMeshStep \/ NMeshStep \/ OMeshStep
             \/ OShapeStep \/ NCtrlStep \/ TwinNStep
=============================================================================
