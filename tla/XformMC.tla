------------------------------- MODULE XformMC -------------------------------
(* The definitions of the transforms have the properties that make them       *)
(* translations, scalings and rotations; every sequence of transforms from a  *)
(* pool, up to a depth, is printed to be applied by the implementation to     *)
(* points, vectors of points, meshes, surfaces and surface solids.            *)
EXTENDS Xform, TLC
CONSTANTS Depth, Emit
VARIABLES p, q, hist, n
E == RR("1e-28")        \* the sine and cosine are rational approximations
Axes == << [s |-> "1 0 0", v |-> P3(1, 0, 0)], [s |-> "0 -1 0", v |-> P3(0, -1, 0)],
           [s |-> "0.48 0.6 0.64", v |-> <<RR("0.48"), RR("0.6"), RR("0.64")>>] >>
Angles == << [s |-> "90", r |-> RR(90)], [s |-> "-30", r |-> RR(-30)], [s |-> "200.5", r |-> RR("200.5")] >>
QuatS == << [s |-> "quat 4 0.5 0.5 -0.5 0.5", q |-> <<RR("1/2"), RR("1/2"), RR("-1/2"), RR("1/2")>>],
            [s |-> "quat_set 4 0.8 0 0.6 0", q |-> <<RR("4/5"), RR(0), RR("3/5"), RR(0)>>] >>
Start == {<<P3(1, 2, 3), P3(-4, 0, 1)>>, <<P3(0, 0, 0), P3(0, 5, -2)>>}
\* the program: m_transform on a mesh with both points, and on a surface and a solid
Prog(x) == "m_transform A " \o x \o ";n_transform S " \o x \o ";o_transform O " \o x \o ";x_apply " \o x \o " 1 -2 0.5;x_apply_all " \o x \o " 2 1 2 3 -4 0 1;"
Fixture == "m_load A 255 3 1 2 3 -4 0 1 7 7 7 2 0 1 2 0 2 1 0 1;n_factory S quad 12 0 0 0 1 0 0 1 1 0 0 1 2;o_factory O box 3 1 2 3;"
Init == \E x \in Start : p = x[1] /\ q = x[2] /\ n = 0 /\ hist = Fixture
Do(k, a, s) == p' = Apply(k, a, p) /\ q' = Apply(k, a, q) /\ hist' = hist \o Prog(s) /\ n' = n + 1
Rotate == \E x \in DOMAIN Axes, d \in DOMAIN Angles, k \in {"aa", "mat_aa", "quat_aa", "aa_set", "aa_from"} :
          Do(k, <<Angles[d].r>> \o Axes[x].v, k \o " 4 " \o Angles[d].s \o " " \o Axes[x].s)
Quat   == \E x \in DOMAIN QuatS : Do("quat", QuatS[x].q, QuatS[x].s)
Turn   == \E a \in {<<30, 0, 0>>, <<0, 45, 0>>, <<0, 0, -60>>, <<10, 20, 40>>} :
          Do("euler", P3(a[1], a[2], a[3]), "euler 3 " \o ToString(a[1]) \o " " \o ToString(a[2]) \o " " \o ToString(a[3]))
Move   == Do("translation", P3(2, -3, 5), "translation 3 2 -3 5")
Stretch == Do("scale", <<RR(2), RR("-1/2"), RR(1)>>, "scale 3 2 -0.5 1")
Mat    == Do("mat", <<RR(0), RR(1), RR(2), RR(-1), RR(3), RR(0), RR("1/2"), RR(1), RR(1)>>, "mat 9 0 1 2 -1 3 0 0.5 1 1")
Next == n < Depth /\ (Rotate \/ Quat \/ Turn \/ Move \/ Stretch \/ Mat)
Spec == Init /\ [][Next]_<<p, q, hist, n>>
EmitAll == (Emit /\ n' = Depth) => PrintT("@@" \o hist')
Same(a, b) == PNear(a, b, E \otimes RR(1000000))
\* rotations keep lengths and distances (Turn mirrors one axis, and keeps them as well)
Rigid == [][ (Rotate \/ Quat \/ Turn) => /\ Near(Dist2(p', q'), Dist2(p, q), E \otimes RR(1000000))
                                         /\ Near(Norm2(p'), Norm2(p), E \otimes RR(1000000)) ]_<<p, q, hist, n>>
\* translations keep differences
Shift == [][ Move => VSub(p', q') = VSub(p, q) ]_<<p, q, hist, n>>
Laws ==
  /\ \A x \in DOMAIN Axes : LET u == Axes[x].v IN
     /\ \A d \in DOMAIN Angles : /\ Same(RotAngle(u, Angles[d].r, u), u)
                                 /\ Same(RotAngle(RotAngle(p, Angles[d].r, u), RNeg(Angles[d].r), u), p)
                                 /\ Same(RotAngle(p, Angles[d].r, VNeg(u)), RotAngle(p, RNeg(Angles[d].r), u))
                                 \* the unit quaternion of half the angle is the same rotation
                                 /\ LET h == Angles[d].r \oslash RR(2) s == RSinDeg(h) IN
                                    Same(RotQ(p, <<RCosDeg(h), s \otimes u[1], s \otimes u[2], s \otimes u[3]>>), RotAngle(p, Angles[d].r, u))
                                 \* handedness
                                 /\ LET f(y) == RotAngle(y, Angles[d].r, u) IN
                                    Near(Det(f(P3(1, 0, 0)), f(P3(0, 1, 0)), f(P3(0, 0, 1))), One, E \otimes RR(1000))
     /\ \A d, e \in DOMAIN Angles : Same(RotAngle(RotAngle(p, Angles[d].r, u), Angles[e].r, u), RotAngle(p, Angles[d].r \oplus Angles[e].r, u))
  /\ MulM(IdM, p) = p
  /\ Same(Euler(p, P3(0, 0, 0)), <<p[1], RNeg(p[2]), p[3]>>)
  /\ Same(RotAngle(P3(1, 0, 0), RR(90), P3(0, 0, 1)), P3(0, 1, 0))
=============================================================================
