------------------------------- MODULE GeomMC -------------------------------
(* The queries over a small integer grid: their answers must not depend on    *)
(* the order corners or end points are given in, must be consistent with each *)
(* other, and must be settled where nothing is near a boundary.  Every        *)
(* explored configuration is printed to be asked of the implementation.       *)
EXTENDS Geom, TLC
CONSTANTS Kind, R, Emit
VARIABLES cfg, hist
G == 0 .. R
Pt(x, y, z) == P3(x, y, z)
TS(x) == ToString(x)
PS(p) == " " \o TS(p[1]) \o " " \o TS(p[2]) \o " " \o TS(p[3])
RP(p) == P3(p[1], p[2], p[3])
T0 == {<< <<0, 0, 0>>, <<4, 0, 0>>, <<0, 4, 0>> >>, << <<1, 0, 0>>, <<0, 3, 1>>, <<0, 0, 4>> >>, << <<2, 1, 0>>, <<0, 2, 2>>, <<3, 3, 3>> >>}
Grid == {<<x, y, z>> : x, y, z \in -1 .. R}
Init == \/ /\ Kind = "contains"
           /\ \E t \in T0, p \in {<<x, y, z>> : x, y, z \in -3 .. R} :
                /\ Coplanar([k \in 1 .. 3 |-> RP(t[k])], RP(p))
                /\ cfg = [t |-> [k \in 1 .. 3 |-> RP(t[k])], s |-> <<RP(p)>>]
                /\ hist = "g_tri_contains 3" \o PS(t[1]) \o PS(t[2]) \o PS(t[3]) \o PS(p) \o ";g_tri_contains 3" \o PS(t[2]) \o PS(t[3]) \o PS(t[1]) \o PS(p)
                          \o ";g_tri_contains 3" \o PS(t[3]) \o PS(t[2]) \o PS(t[1]) \o PS(p) \o ";g_tri_contains 3" \o PS(t[3]) \o PS(t[1]) \o PS(t[2]) \o PS(p) \o ";"
        \/ /\ Kind = "segtri"
           /\ \E t \in T0, p, q \in Grid :
                /\ p # q /\ (p[1] + 3 * p[2] + 7 * p[3] + 5 * q[1] + 2 * q[2] + 11 * q[3]) % 13 = 0    \* a thirteenth of them
                /\ cfg = [t |-> [k \in 1 .. 3 |-> RP(t[k])], s |-> <<RP(p), RP(q)>>]
                /\ hist = "g_tri_seg 3" \o PS(t[1]) \o PS(t[2]) \o PS(t[3]) \o " 2" \o PS(p) \o PS(q) \o ";g_tri_seg 3" \o PS(t[2]) \o PS(t[3]) \o PS(t[1]) \o " 2" \o PS(q) \o PS(p)
                          \o ";g_plane_seg 3" \o PS(t[1]) \o PS(t[2]) \o PS(t[3]) \o " 2" \o PS(p) \o PS(q) \o ";g_tri_cut 3" \o PS(p) \o PS(q) \o PS(t[2]) \o " 3" \o PS(t[1]) \o PS(t[2]) \o PS(t[3]) \o ";"
        \/ /\ Kind = "segseg"
           /\ \E a \in {<<0, 0, 0>>, <<1, 0, 1>>}, b \in {<<2, 2, 0>>, <<2, 1, 1>>, <<0, 2, 0>>}, p, q \in {<<x, y, z>> : x, y \in -1 .. R, z \in 0 .. 1} :
                /\ p # q
                /\ cfg = [t |-> <<RP(a), RP(b)>>, s |-> <<RP(p), RP(q)>>]
                /\ hist = "g_seg_seg 2" \o PS(a) \o PS(b) \o " 2" \o PS(p) \o PS(q) \o ";g_seg_seg 2" \o PS(q) \o PS(p) \o " 2" \o PS(a) \o PS(b) \o ";"
Next == UNCHANGED <<cfg, hist>>
Spec == Init /\ [][Next]_<<cfg, hist>>
Rot(t) == <<t[2], t[3], t[1]>>
Swap(t) == <<t[2], t[1], t[3]>>
Flp(s) == <<s[2], s[1]>>
Order == CASE Kind = "contains" -> /\ ContainsAnswers(cfg.t, cfg.s[1]) = ContainsAnswers(Rot(cfg.t), cfg.s[1])
                                   /\ ContainsAnswers(cfg.t, cfg.s[1]) = ContainsAnswers(Swap(cfg.t), cfg.s[1])
                                   /\ Cardinality(ContainsAnswers(cfg.t, cfg.s[1])) = 1
           [] Kind = "segtri" -> /\ TriSegAnswers(cfg.t, cfg.s) = TriSegAnswers(Rot(cfg.t), Flp(cfg.s))
                                 /\ TriSegAnswers(cfg.t, cfg.s) = TriSegAnswers(Swap(cfg.t), cfg.s)
                                 /\ (TriSegAnswers(cfg.t, cfg.s) = {TRUE} => PlaneSegAnswers(cfg.t, cfg.s) = {TRUE}
                                       /\ OnSegment(cfg.s, Crossing(cfg.t, cfg.s), Zero) /\ OnPlane(cfg.t, Crossing(cfg.t, cfg.s), Zero))
           [] Kind = "segseg" -> /\ SegSegAnswers(cfg.t, cfg.s) = SegSegAnswers(cfg.s, cfg.t)
                                 /\ SegSegAnswers(cfg.t, cfg.s) = SegSegAnswers(Flp(cfg.t), cfg.s)
                                 /\ (SegSegAnswers(cfg.t, cfg.s) = {TRUE} => BoxesMeet(cfg.t, cfg.s))
EmitState == Emit => PrintT("@@" \o hist)
=============================================================================
