------------------------------ MODULE BezierTrace ------------------------------
(* Recorded histories of Bezier triangles and smooth meshes.  Control points   *)
(* cannot be read back: the specification keeps them, and every event records  *)
(* eight probe points of every patch.                                          *)
EXTENDS Bezier, MeshOpsTrace
VARIABLES bs,    \* patches by name
          ss,    \* smooth meshes by name: sequences of patches
          cb,    \* cubic patches by name
          bl     \* the last recorded probes
BezierVars == <<bs, ss, cb, bl>>
BezierReset == bs' = Empty /\ ss' = Empty /\ cb' = Empty /\ bl' = [b |-> Empty, s |-> Empty]
BGet(n) == IF n \in DOMAIN bs THEN bs[n] ELSE NoPatch
SGet(n) == IF n \in DOMAIN ss THEN ss[n] ELSE <<>>
KGet(n) == IF n \in DOMAIN cb THEN cb[n] ELSE NoCubic
Put(f, n, x) == [k \in DOMAIN f \cup {n} |-> IF k = n THEN x ELSE f[k]]
ProbesOf(n) == Ev.sm[n].q
\* nothing but patch names B and smooth meshes S may have changed; their probes are those of the new state
BTables(B, S) ==
  /\ Chk("untouched patches", \A n \in DOMAIN bl.b \ B : n \in DOMAIN Ev.bz /\ Ev.bz[n] = bl.b[n])
  /\ Chk("untouched smooth meshes", \A n \in DOMAIN bl.s \ S : n \in DOMAIN Ev.sm /\ ProbesOf(n) = bl.s[n])
  /\ Chk("count", \A n \in DOMAIN Ev.sm : Ev.sm[n].n = Len(ProbesOf(n)) /\ (Ev.sm[n].e <=> Ev.sm[n].n = 0))
  /\ bl' = [b |-> Ev.bz, s |-> [n \in DOMAIN Ev.sm |-> ProbesOf(n)]]
\* the outcome must be stated before it is checked
PatchIs(x) == /\ BTables({Ev.m}, {}) /\ bs' = Put(bs, Ev.m, x) /\ UNCHANGED <<MeshVars, ss, cb>>
              /\ Chk("patch", Shows(Ev.bz[Ev.m], x))
ShowsAll(q, s) == Len(q) = Len(s) /\ \A i \in DOMAIN s : Shows(q[i], s[i])
SmoothIs(s) == /\ BTables({}, {Ev.m}) /\ ss' = Put(ss, Ev.m, s) /\ UNCHANGED <<MeshVars, bs, cb>>
               /\ Chk("patches", ShowsAll(ProbesOf(Ev.m), s))
BRead == BTables({}, {}) /\ UNCHANGED <<MeshVars, bs, ss, cb>>
B0 == BGet(Ev.m)
S0 == SGet(Ev.m)
MovedPatch(b) == Grown([b EXCEPT !.p = [i \in 1 .. 3 |-> Apply(Ev.k, Ev.a, b.p[i])], !.c = [i \in 1 .. 3 |-> Apply(Ev.k, Ev.a, b.c[i])],
                                 !.e = RMax(@, MaxF(LAMBDA i : RAbs(Ev.a[i]), 1, Len(Ev.a)))])
\* which of the outcomes in O it is
SmoothOneOf(O) == /\ Chk("outcome", \E s \in O : ShowsAll(ProbesOf(Ev.m), s))
                  /\ SmoothIs(CHOOSE s \in O : ShowsAll(ProbesOf(Ev.m), s))
F3(a, b, c) == FlatPatch(<<a, b, c>>)
Rots3(x) == {F3(x[1], x[2], x[3]), F3(x[2], x[3], x[1]), F3(x[3], x[1], x[2])}
\* a polygon is covered by a fan or any other triangulation of its boundary, in any order
QuadTris(q) == {<< <<1, 2, 3>>, <<1, 3, 4>> >>, << <<1, 2, 4>>, <<2, 3, 4>> >>}
PentaTris == LET fan(k) == LET c(i) == ((k - 1 + i - 1) % 5) + 1 IN << <<c(1), c(2), c(3)>>, <<c(1), c(3), c(4)>>, <<c(1), c(4), c(5)>> >> IN {fan(k) : k \in 1 .. 5}
PolyOk(q, T, new) ==       \* new: the probes of the added patches
  \E t \in T : /\ Len(new) = Len(t)
               /\ \A i \in DOMAIN t : \E j \in DOMAIN new : \E r \in Rots3(<<q[t[i][1]], q[t[i][2]], q[t[i][3]]>>) : Shows(new[j], r)
Derived(new) == [i \in DOMAIN new |-> FromProbes(new[i])]
PolyStep3(q, T) == LET old == Len(S0) all == ProbesOf(Ev.m) new == SubSeq(all, old + 1, Len(all)) IN
  /\ Chk("covers", Len(all) >= old /\ PolyOk(q, T, new))
  /\ SmoothIs(S0 \o Derived(new))

PatchStep ==
  \/ Is("b_new") /\ PatchIs(NoPatch)
  \/ Is("b_points") /\ PatchIs(SetPoints(B0, Ev.ps))
  \/ Is("b_control") /\ PatchIs(SetControl(B0, Ev.ps))
  \/ Is("b_weights") /\ PatchIs(SetWeights(B0, Ev.ws))
  \/ (Is("b_copy") \/ Is("b_assign")) /\ PatchIs(BGet(Ev.f))
  \/ Is("b_from_smooth") /\ PatchIs(SGet(Ev.f)[Ev.i + 1])
  \/ Is("b_transform") /\ PatchIs(MovedPatch(B0))
  \/ /\ Is("b_eval") /\ BRead
     /\ Chk("samples", Len(Ev.r) = Len(Ev.s) /\ Len(Ev.r3) = Len(Ev.s))
     /\ Chk("point", \A i \in DOMAIN Ev.s : LET p == BEval(B0, Ev.s[i], Ev.u[i], (One \ominus Ev.s[i]) \ominus Ev.u[i]) IN
                                            PNear(Ev.r[i], p, BEps(B0)) /\ PNear(Ev.r3[i], p, BEps(B0)))
SmoothStep ==
  \/ (Is("sm_new") \/ Is("sm_clear")) /\ SmoothIs(<<>>)
  \/ Is("sm_add") /\ SmoothIs(Append(S0, BGet(Ev.f)))
  \/ Is("sm_flat_triangle") /\ PolyStep3(Ev.ps, {<< <<1, 2, 3>> >>})
  \/ Is("sm_flat_quad") /\ PolyStep3(Ev.ps, QuadTris(Ev.ps))
  \/ Is("sm_flat_pentagon") /\ PolyStep3(Ev.ps, PentaTris)
  \/ (Is("sm_copy") \/ Is("sm_assign")) /\ SmoothIs(SGet(Ev.f)) /\ Chk("same", Ev.f \in DOMAIN Ev.sm => ProbesOf(Ev.m) = ProbesOf(Ev.f))
  \/ Is("sm_append") /\ SmoothIs(S0 \o SGet(Ev.f))
  \/ Is("sm_transform") /\ SmoothIs([i \in DOMAIN S0 |-> MovedPatch(S0[i])])
\* a mesh of all patches, appended
RECURSIVE AllSampled(_, _, _, _, _, _)
AllSampled(s, i, n, v0, t0, vl) ==
  IF i > Len(s) THEN Chk("sizes", Len(After.v) = v0 /\ Len(After.t) = t0)
  ELSE /\ Chk("sizes", Len(After.v) >= v0 + NLat(n) /\ Len(After.t) >= t0 + n * n)
       /\ Chk("covers", BSampled(s[i], n, v0, t0, vl[i], After))
       /\ AllSampled(s, i + 1, n, v0 + NLat(n), t0 + n * n, vl)
MeshOf(s) == LET m == Get(Ev.m) IN
  /\ BTables({}, {}) /\ Frame({Ev.m}) /\ UNCHANGED <<bs, ss, cb>>
  /\ Ev.n >= 1
  /\ Chk("kept", After.c = m.c /\ Len(After.v) >= Len(m.v) /\ Len(After.t) >= Len(m.t) /\ SubSeq(After.v, 1, Len(m.v)) = m.v /\ SubSeq(After.t, 1, Len(m.t)) = m.t)
  /\ AllSampled(s, 1, Ev.n, Len(m.v), Len(m.t), Ev.vl)
BMeshStep == (Is("b_mesh") /\ MeshOf(<<BGet(Ev.f)>>)) \/ (Is("sm_mesh") /\ MeshOf(SGet(Ev.f)))
\* factory shapes: patches with unit weights, flat except for the sphere; their corners make the ideal
\* solid, and neighbours share their edge curves
SmoothShape(k, a, s, weld) ==
  LET m == CornerMesh(s)
      t == Welded(m, weld) IN
  /\ Chk("weld", WeldOk(m, weld, FactorySmall(k, a)))
  /\ Chk("closed", t # <<>> /\ ManifoldSeq(t) /\ EulerChar(t) = 4)
  /\ Chk("outward", Star(m, FactorySmall(k, a)))
  /\ Chk("corners on the ideal shape", ShapePost(IF k = "sphere" THEN "octahedron" ELSE k, a, 1, m))
  /\ IF k # "sphere" THEN Chk("flat", \A i \in DOMAIN s : \A j \in 1 .. 3 : PNear(s[i].c[j], Flat(s[i].p)[j], RR(4) \otimes BEps(s[i])))
     ELSE /\ Chk("round", \A i \in DOMAIN s : \A u \in Lattice(4) : LET r2 == Norm2(LatticeAt(s[i], u, 4)) \oslash RSq(a[1]) IN RLe(RR("0.9"), r2) /\ RLe(r2, RR("1.145")))
          /\ Chk("no seam", \A i, j \in DOMAIN s : \A x, y \in {<<1, 2>>, <<2, 3>>, <<3, 1>>} :
               (t[i][x[1]] = t[j][y[2]] /\ t[i][x[2]] = t[j][y[1]]) => PNear(EdgeMid(s[i], x[1], x[2]), EdgeMid(s[j], y[1], y[2]), RR(4) \otimes BEps(s[i])))
SFactoryStep == /\ Is("sm_factory")
                /\ SmoothIs(Derived(ProbesOf(Ev.m)))        \* weights one: the inner probes agree as well
                /\ SmoothShape(Ev.k, Ev.a, Derived(ProbesOf(Ev.m)), Ev.weld)
STwinStep == Is("sm_twin") /\ BRead /\ Chk("same patches", ProbesOf(Ev.m) = ProbesOf(Ev.f))
BernsteinStep == /\ Is("g_bernstein") /\ UNCHANGED <<MeshVars, BezierVars>>
                 /\ LET u == Ev.u e == RR("1e-12") \otimes RMax(One, RAbs(u) \otimes RSq(u)) IN
                    /\ Chk("powers", Near(Ev.sq, RSq(u), e) /\ Near(Ev.cu, RSq(u) \otimes u, RR(4) \otimes e))
                    /\ Chk("degree 1", \A i \in 0 .. 1 : Near(Ev.b1[i + 1], Bernstein(1, i, u), e))
                    /\ Chk("degree 2", \A i \in 0 .. 2 : Near(Ev.b2[i + 1], Bernstein(2, i, u), RR(8) \otimes e))
                    /\ Chk("degree 3", \A i \in 0 .. 3 : Near(Ev.b3[i + 1], Bernstein(3, i, u), RR(16) \otimes e))
K0 == KGet(Ev.m)
KState3(x) == [p |-> x.p, c |-> x.c, m |-> x.m]
CubicIs(x) == /\ BTables({}, {}) /\ cb' = Put(cb, Ev.m, x) /\ UNCHANGED <<MeshVars, bs, ss>> /\ Chk("outcome", KState3(Ev.st) = x)
CubicStep ==
  \/ Is("q_new") /\ CubicIs(NoCubic)
  \/ Is("q_points") /\ CubicIs([K0 EXCEPT !.p = Ev.ps])
  \/ Is("q_control") /\ CubicIs([K0 EXCEPT !.c = Ev.ps])
  \/ Is("q_center") /\ CubicIs([K0 EXCEPT !.m = Ev.p])
  \/ /\ Is("q_normals") /\ BTables({}, {}) /\ UNCHANGED <<MeshVars, bs, ss>>
     /\ cb' = Put(cb, Ev.m, KState3(Ev.st))
     /\ LET x == PNormals(K0.p, Ev.ps) e == RR("1e-11") \otimes PExt(K0.p) \otimes RMax(One, RSq(PExt(Ev.ps))) IN
        /\ Chk("corners", Ev.st.p = K0.p)
        /\ Chk("edge controls", \A i \in 1 .. 6 : PNear(Ev.st.c[i], x.c[i], e))
        /\ Chk("centre", PNear(Ev.st.m, x.m, e))
BezierStep == PatchStep \/ SmoothStep \/ BMeshStep \/ SFactoryStep \/ BernsteinStep \/ STwinStep \/ CubicStep
=============================================================================
