----------------------------- MODULE MeshOpsMC -----------------------------
(* The abstract algorithms of the whole-mesh operations against the relations *)
(* they have to satisfy, on every mesh over a small pool of positions and     *)
(* every sequence of operations up to a depth; every history explored is      *)
(* printed to be replayed on the implementation.                              *)
EXTENDS MeshOps, TLC
CONSTANTS NVert, NPool, Depth, Ops, Emit
VARIABLES m, hist, n

Pool == << [s |-> "0 0 0", p |-> P3(0, 0, 0)], [s |-> "1 0 0", p |-> P3(1, 0, 0)], [s |-> "0 2 0", p |-> P3(0, 2, 0)],
           [s |-> "0.5 0 0", p |-> <<RR("1/2"), RR(0), RR(0)>>], [s |-> "0 2 1.5", p |-> <<RR(0), RR(2), RR("3/2")>>],
           [s |-> "3 0 -1", p |-> P3(3, 0, -1)] >>
Tols == << [s |-> "0.5", r |-> RR("1/2")], [s |-> "0.75", r |-> RR("3/4")], [s |-> "1.25", r |-> RR("5/4")], [s |-> "2.5", r |-> RR("5/2")], [s |-> "1e-6", r |-> RR("1e-6")] >>
TriSets == { << <<0, 1, 2>> >>, << <<0, 1, 2>>, <<1, 3, 2>> >>, << <<0, 2, 1>>, <<0, 1, 3>>, <<1, 2, 3>>, <<3, 2, 0>> >>,
             << <<0, 1, 1>>, <<3, 2, 1>> >> }
TS(x) == ToString(x)
RECURSIVE PosS(_, _)
PosS(f, i) == IF i > NVert THEN "" ELSE " " \o Pool[f[i]].s \o PosS(f, i + 1)
RECURSIVE TriS(_, _, _)
TriS(t, dead, i) == IF i > Len(t) THEN "" ELSE " " \o TS(t[i][1]) \o " " \o TS(t[i][2]) \o " " \o TS(t[i][3]) \o (IF i = dead THEN " 1" ELSE " 0") \o TriS(t, dead, i + 1)
Init == \E f \in [1 .. NVert -> 1 .. NPool], t \in TriSets, dead \in {0, 1} :
        /\ (\A i \in DOMAIN t : \A k \in 1 .. 3 : t[i][k] < NVert)
        /\ m = [c |-> -1, v |-> [i \in 1 .. NVert |-> Pool[f[i]].p], t |-> IF dead = 0 THEN t ELSE Kill(t, 0)]
        /\ hist = "m_load A -1 " \o TS(NVert) \o PosS(f, 1) \o " " \o TS(Len(t)) \o TriS(t, dead, 1) \o ";"
        /\ n = 0
Log(s) == hist' = hist \o s \o ";" /\ n' = n + 1
Merge(k) == "merge" \in Ops /\ m' = MergeAlgo(m, Tols[k].r) /\ Log("m_merge A " \o Tols[k].s)
Drop(k)  == "drop" \in Ops /\ m' = RemoveEmptyAlgo(m, Tols[k].r) /\ Log("m_remove_empty A " \o Tols[k].s)
Next == n < Depth /\ \E k \in DOMAIN Tols : Merge(k) \/ Drop(k)
Spec == Init /\ [][Next]_<<m, hist, n>>
View == <<m, n>>

MergeSound == [][ \A k \in DOMAIN Tols : Merge(k) =>
   LET t == Tols[k].r IN
   /\ WellFormed(m')
   /\ MergePost(m, t, m') /\ MergeTight(t, m')
   /\ Separated(m, t) => MergeExact(m, m')
   /\ MergeAlgo(m', t) = m' ]_<<m, hist, n>>
DropSound == [][ \A k \in DOMAIN Tols : Drop(k) =>
   LET t == Tols[k].r IN RemoveEmptyPost(m, t, m') /\ RemoveEmptyAlgo(m', t) = m' ]_<<m, hist, n>>
\* removed triangles are invisible: the operations agree with those on the mesh without them
DeadBlind == [][ \A k \in DOMAIN Tols :
   /\ (Merge(k) => SameLive(m', MergeAlgo(Compact(m), Tols[k].r)))
   /\ (Drop(k) => SameLive(m', RemoveEmptyAlgo(Compact(m), Tols[k].r))) ]_<<m, hist, n>>
EmitAll == (Emit /\ n' = Depth) => PrintT("@@" \o hist')

\* the stripes subdivide the triangle, and a subdivision covers every unit cell once
ASSUME \A k \in 1 .. 7 : Subdivision(Stripes(k), k)
ASSUME \A k \in 2 .. 5 : \A x \in Stripes(k) :
         /\ ~Subdivision(Stripes(k) \ {x}, k)
         /\ ~Subdivision((Stripes(k) \ {x}) \cup {<<x[1], x[3], x[2]>>}, k)
\* grids: the canonical triangulation satisfies the relation, its transpose does not
Canon(w, h) == LET F[k \in 0 .. (w - 1) * (h - 1)] == IF k = 0 THEN <<>> ELSE
                     LET i == (k - 1) % (w - 1) j == (k - 1) \div (w - 1) a == i + w * j IN F[k - 1] \o QuadA(a, a + 1, a + 1 + w, a + w)
               IN F[(w - 1) * (h - 1)]
ASSUME \A w, h \in 2 .. 5 : GridTris(w, h, Canon(w, h)) /\ (w # h => ~GridTris(w, h, Canon(h, w)))
=============================================================================
