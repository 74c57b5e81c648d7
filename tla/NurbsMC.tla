------------------------------- MODULE NurbsMC -------------------------------
(* Refinement of curves and surfaces explored from a pool of shapes: every    *)
(* sequence of knot insertions and degree elevations up to Depth keeps every  *)
(* point; the polar-form algorithms agree with the basis-function definition. *)
EXTENDS Nurbs, TLC
CONSTANTS Kind, Depth, Emit
VARIABLES g, g0, h
vars == <<g, g0, h>>
Q(s) == [i \in DOMAIN s |-> RDiv(RR(s[i]), RR(4))]
Pts(s) == [i \in DOMAIN s |-> P3(s[i][1], s[i][2], s[i][3])]
C(d, k, w, p) == [d |-> d, k |-> Q(k), w |-> Q(w), p |-> Pts(p)]
CPool == {
  C(1, <<0,0,4,4>>, <<4,4>>, <<<<0,0,0>>,<<3,1,2>>>>),
  C(1, <<0,0,1,2,4,4>>, <<4,2,4,8>>, <<<<0,0,0>>,<<1,2,0>>,<<2,-1,1>>,<<4,0,2>>>>),
  C(2, <<0,0,0,4,4,4>>, <<4,2,4>>, <<<<1,0,0>>,<<1,1,0>>,<<0,1,0>>>>),
  C(2, <<0,0,0,1,2,2,4,4,4>>, <<4,3,4,8,4,2>>, <<<<0,0,0>>,<<1,2,0>>,<<2,-1,1>>,<<4,0,2>>,<<5,1,1>>,<<6,3,0>>>>),
  C(3, <<0,0,0,0,1,3,4,4,4,4>>, <<4,4,2,4,8,4>>, <<<<0,0,0>>,<<1,2,0>>,<<2,-1,1>>,<<4,0,2>>,<<5,1,1>>,<<6,3,0>>>>) }
S(du, dv, ku, kv, w, p) == [du |-> du, dv |-> dv, ku |-> Q(ku), kv |-> Q(kv), nu |-> Len(ku) - du - 1, nv |-> Len(kv) - dv - 1,
                            cu |-> FALSE, cv |-> FALSE, w |-> Q(w), p |-> Pts(p)]
Grid(nu, nv) == [x \in 1 .. nu * nv |-> LET i == (x - 1) % nu j == (x - 1) \div nu IN <<i * 2 + (j % 2), j * 3 - i, (i * i + 2 * j * i) % 5>>]
Ws(n) == [x \in 1 .. n |-> 2 + ((x * 3) % 5)]
SPool == {
  S(1, 1, <<0,0,4,4>>, <<0,0,1,4,4>>, Ws(6), Grid(2, 3)),
  S(2, 1, <<0,0,0,2,4,4,4>>, <<0,0,4,4>>, Ws(8), Grid(4, 2)),
  S(1, 3, <<0,0,3,4,4>>, <<0,0,0,0,4,4,4,4>>, Ws(12), Grid(3, 4)),
  S(2, 2, <<0,0,0,4,4,4>>, <<0,0,0,1,1,4,4,4>>, Ws(15), Grid(3, 5)) }
Us == {"0.25", "0.5", "0.8125"}

Lst(s) == ToString(Len(s)) \o FoldLeft(LAMBDA a, x : a \o " " \o ToString(RFloor(x \otimes RR(4))), "", s)
PL(s) == ToString(Len(s)) \o FoldLeft(LAMBDA a, x : a \o " " \o ToString(RFloor(x[1])) \o " " \o ToString(RFloor(x[2])) \o " " \o ToString(RFloor(x[3])), "", s)
MakeC(c) == "c_degree A " \o ToString(c.d) \o ";c_points A " \o PL(c.p) \o ";c_knots A " \o Lst(c.k) \o ";c_weights A " \o Lst(c.w) \o ";"
MakeS(s) == "n_degree A " \o ToString(s.du) \o " " \o ToString(s.dv) \o ";n_points A " \o PL(s.p) \o " " \o ToString(s.nu) \o " " \o ToString(s.nv)
            \o ";n_knots_u A " \o Lst(s.ku) \o ";n_knots_v A " \o Lst(s.kv) \o ";n_weights A " \o Lst(s.w) \o ";"

Init == \E x \in (IF Kind = "curve" THEN CPool ELSE SPool) :
          g = x /\ g0 = x /\ h = <<IF Kind = "curve" THEN MakeC(x) ELSE MakeS(x)>>
Next ==
  /\ Len(h) <= Depth
  /\ UNCHANGED g0
  /\ IF Kind = "curve" THEN
       \/ \E u \in Us : MultOf(g.k, RR(u)) < g.d /\ g' = InsertAlgo(g, RR(u)) /\ h' = Append(h, "c_insert A " \o u \o ";")
       \/ g.d < 3 /\ g' = ElevateAlgo(g) /\ h' = Append(h, "c_elevate A;")
       \/ g.d = 3 /\ h[Len(h)] # "c_elevate A;" /\ g' = g /\ h' = Append(h, "c_elevate A;")
     ELSE
       \/ \E u \in Us : MultOf(g.ku, RR(u)) < g.du /\ g' = RefineU(g, LAMBDA c : InsertAlgo(c, RR(u))) /\ h' = Append(h, "n_insert_u A " \o u \o ";")
       \/ \E u \in Us : MultOf(g.kv, RR(u)) < g.dv /\ g' = RefineV(g, LAMBDA c : InsertAlgo(c, RR(u))) /\ h' = Append(h, "n_insert_v A " \o u \o ";")
       \/ g.du < 3 /\ g' = RefineU(g, ElevateAlgo) /\ h' = Append(h, "n_elevate_u A;")
       \/ g.dv < 3 /\ g' = RefineV(g, ElevateAlgo) /\ h' = Append(h, "n_elevate_v A;")
Spec == Init /\ [][Next]_vars
Sound == IF Kind = "curve" THEN WellFormedCurve(g) /\ Standard(g.k, g.d) /\ SameCurve(g, g0, Zero)
         ELSE WellFormedSurface(g) /\ Standard(g.ku, g.du) /\ Standard(g.kv, g.dv) /\ SameSurf(g, g0, Zero)
\* end points, hull and affine maps
Ends == Kind = "curve" => CurveAt(g, Zero) = g.p[1] /\ CurveAt(g, One) = g.p[Len(g.p)]
Hull == Kind = "curve" => \A u \in Probes(g.k) : LET q == CurveAt(g, u) IN \A j \in 1 .. 3 :
          RLe(RNeg(MaxF(LAMBDA i : RNeg(g.p[i][j]), 1, Len(g.p))), q[j]) /\ RLe(q[j], MaxF(LAMBDA i : g.p[i][j], 1, Len(g.p)))
Unity == LET k == IF Kind = "curve" THEN g.k ELSE g.ku d == IF Kind = "curve" THEN g.d ELSE g.du IN
         \A u \in Probes(k) : LET x == BasAt(k, d, u) IN SumF(LAMBDA j : x.b[j], 1, d + 1) = One /\ \A j \in 1 .. d + 1 : RLe(Zero, x.b[j])
Cat(s) == FoldLeft(LAMBDA a, x : a \o x, "", s)
EmitState == Emit => PrintT("@@" \o Cat(h) \o (IF Kind = "curve" THEN "c_eval A 6 0 0.125 0.25 0.5 0.9 1;" ELSE "n_eval A 6 0 0.125 0.25 0.5 0.9 1 6 1 0.25 0.8 0 0.5 1;"))
=============================================================================
