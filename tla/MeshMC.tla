------------------------------- MODULE MeshMC -------------------------------
(* Edit histories of one mesh over a small pool of points: the invariants     *)
(* hold in every reachable state, and every explored history is printed as a  *)
(* script to be replayed on the implementation.                               *)
EXTENDS Mesh, TLC, TLCExt
CONSTANTS Start, MaxV, MaxT, Depth, Full, Emit, Sim
VARIABLES m, hist, n, born   \* mesh, API calls so far, what each slot was created as (normalised)

Pool == << [s |-> "0 0 0", p |-> P3(0, 0, 0)], [s |-> "2 0 0", p |-> P3(2, 0, 0)], [s |-> "0 3 0", p |-> P3(0, 3, 0)],
           [s |-> "0 0 5", p |-> P3(0, 0, 5)], [s |-> "0.5 0.25 -1", p |-> <<RR("1/2"), RR("1/4"), RR("-1")>>] >>
vs == 0 .. NV(m) - 1
TS(x) == ToString(x)
\* a live triangle by slot and corners, for the slots are numbered by the implementation
Tr(i) == TS(i) \o (IF m.t[i + 1] = <<>> THEN "" ELSE "=" \o TS(m.t[i + 1][1]) \o "." \o TS(m.t[i + 1][2]) \o "." \o TS(m.t[i + 1][3]))
Log(s) == hist' = hist \o s \o ";" /\ n' = n + 1
Set(o) == m' = o /\ born' = [i \in DOMAIN o.t |-> IF i \in DOMAIN born THEN born[i] ELSE o.t[i]]

\* when simulating, one random choice per step instead of all of them
Pick(S) == IF Sim /\ S # {} THEN {RandomElement(S)} ELSE S
RoomV == NV(m) < MaxV
LiveIds == {i - 1 : i \in Live(m)}
RoomT(k) == NT(m) + k <= MaxT

AddV == RoomV /\ \E k \in Pick(DOMAIN Pool) : (k = NV(m) + 1 \/ Full) /\ Set(AddVertex(m, Pool[k].p)) /\ Log("m_add_vertex A " \o Pool[k].s)
AddTP == NV(m) + 3 <= MaxV /\ RoomT(1)
         /\ Set(AddTri(AddVertices(m, <<Pool[1].p, Pool[2].p, Pool[3].p>>), NV(m), NV(m) + 1, NV(m) + 2))
         /\ Log("m_add_triangle_p A " \o Pool[1].s \o " " \o Pool[2].s \o " " \o Pool[3].s)
SetV == \E i \in Pick(vs) : Set(SetVertex(m, i, Pool[4].p)) /\ Log("m_set_vertex A " \o TS(i) \o " " \o Pool[4].s)
AddT == RoomT(1) /\ \E x \in Pick({y \in vs \X vs \X vs : y[1] # y[2] /\ y[2] # y[3] /\ y[1] # y[3]}) :
        LET a == x[1] b == x[2] c == x[3] IN
        Set(AddTri(m, a, b, c)) /\ Log("m_add_triangle A " \o TS(a) \o " " \o TS(b) \o " " \o TS(c))
Rem  == \E i \in Pick(0 .. NT(m) - 1) : Set(Unlink(m, i)) /\ Log("m_unlink A " \o Tr(i))
SplV == RoomT(3) /\ \E x \in Pick({y \in LiveIds \X vs : y[2] \notin Range(m.t[y[1] + 1])}) : LET i == x[1] w == x[2] IN
        Set(SplitAt(m, i, w)) /\ Log("m_split_v A " \o Tr(i) \o " " \o TS(w))
SplP == RoomT(3) /\ RoomV /\ \E i \in Pick(LiveIds) :
        Set(SplitAt(AddVertex(m, Pool[5].p), i, NV(m))) /\ Log("m_split_p A " \o Tr(i) \o " " \o Pool[5].s)
SplE == RoomT(4) /\ \E e \in Pick({f \in {<<x[1] - 1, y, EdgeAt(m, x)[1], EdgeAt(m, x)[2]>> : x \in EdgeIx(m), y \in LiveIds} :
                                       f[1] # f[2] /\ HasEdge(m, f[2], f[4], f[3])}) :
        \E w \in Pick(vs) :
        LET i == e[1] j == e[2] a == e[3] b == e[4] IN
        /\ w \notin Range(m.t[i + 1]) /\ w \notin Range(m.t[j + 1])
        /\ Set(SplitEdgeAt(m, i, j, a, b, w))
        /\ Log("m_split_edge A " \o TS(i) \o " " \o TS(j) \o " " \o TS(a) \o " " \o TS(b) \o " " \o TS(w))
Flp  == RoomT(1) /\ \E i \in Pick(LiveIds) : Set(Flip(m, i)) /\ Log("m_flip A " \o Tr(i))
Quad == RoomT(2) /\ NV(m) >= 4 /\ \E q \in {<<0, 1, 2, 3>>, <<3, 1, 0, 2>>} : \E o \in QuadOutcomes(m, q) :
        o = AddTris(m, QuadA(q[1], q[2], q[3], q[4]))
        /\ Set(o) /\ Log("m_add_quad A 4 " \o TS(q[1]) \o " " \o TS(q[2]) \o " " \o TS(q[3]) \o " " \o TS(q[4]))
Pent == RoomT(3) /\ NV(m) >= 5 /\ Set(AddTris(m, << <<0, 1, 2>>, <<2, 3, 4>>, <<0, 2, 4>> >>)) /\ Log("m_add_pentagon A 5 0 1 2 3 4")
Clr  == (NV(m) > 0 \/ NT(m) > 0) /\ Set(Clear(m)) /\ Log("m_clear A")
Col  == \E c \in {7, 16777215} : m.c # c /\ Set(SetColor(m, c)) /\ Log("m_color A " \o TS(c))

\* where the explored histories start (built by calls the histories begin with)
Pts(k) == [i \in 1 .. k |-> Pool[i].p]
RECURSIVE PtsS(_)
PtsS(k) == IF k = 0 THEN "" ELSE PtsS(k - 1) \o "m_add_vertex A " \o Pool[k].s \o ";"
RECURSIVE TrisS(_)
TrisS(s) == IF s = <<>> THEN "" ELSE "m_add_triangle A " \o TS(Head(s)[1]) \o " " \o TS(Head(s)[2]) \o " " \o TS(Head(s)[3]) \o ";" \o TrisS(Tail(s))
Tetra == << <<0, 2, 1>>, <<0, 1, 3>>, <<1, 2, 3>>, <<3, 2, 0>> >>
StartTris == CASE Start = "empty" -> <<>> [] Start = "pair" -> << <<0, 1, 2>>, <<3, 2, 1>> >> [] Start = "tetra" -> Tetra
StartV == IF Start = "empty" THEN 0 ELSE 5
Init == /\ m = [c |-> -1, v |-> Pts(StartV), t |-> StartTris]
        /\ hist = PtsS(StartV) \o TrisS(StartTris) /\ n = 0 /\ born = StartTris
Next == /\ n < Depth
        /\ AddV \/ AddTP \/ SetV \/ AddT \/ Rem \/ SplV \/ SplP \/ SplE \/ Flp \/ Quad \/ Pent \/ Clr \/ Col
Spec == Init /\ [][Next]_<<m, hist, n, born>>
View == m
SimView == <<m, hist>>

\* ---- properties
Inv == /\ WellFormed(m)
       /\ \A i \in Live(m) : m.t[i] = born[i]     \* a live slot never changes
\* removed triangles stay removed, slots and vertices are never renumbered
Stable == [][ (m'.t # <<>> \/ m'.v # <<>>) =>
              /\ NV(m') >= NV(m) /\ NT(m') >= NT(m)
              /\ \A i \in DOMAIN m.t : m'.t[i] = m.t[i] \/ m'.t[i] = <<>>
              /\ \A i \in DOMAIN m.t : m.t[i] = <<>> => m'.t[i] = <<>> ]_<<m, hist, n, born>>
\* refinements keep the directed boundary
Refine == [][ (SplV \/ SplP \/ SplE) => Boundary(m') = Boundary(m) ]_<<m, hist, n, born>>

\* and so keep closed, consistently oriented surfaces closed; and the area vector and volume when the vertex is on the patch
KeepClosed == [][ (SplV \/ SplP \/ SplE) /\ Closed(m) => Closed(m') /\ AreaVec(m') = AreaVec(m) ]_<<m, hist, n, born>>
Reverse == [][ Flp => /\ Cardinality(Live(m')) = Cardinality(Live(m))
                      /\ {<<e[2], e[1]>> : e \in UsedEdges(m) \ UsedEdges(m')} \subseteq UsedEdges(m') ]_<<m, hist, n, born>>

\* emit every explored history (a representative one per transition)
EmitAll == Emit => PrintT("@@" \o hist')
EmitEnd == (Emit /\ n = Depth) => PrintT("@@" \o hist)
=============================================================================
