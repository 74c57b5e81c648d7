------------------------------- MODULE DeadMC -------------------------------
(* Removed triangles.  The store keeps the corners of a removed triangle and  *)
(* a mark; every reader of a mesh goes through the slots.  What a reader      *)
(* shows must be what it shows for the mesh that never had the triangle.      *)
(* Readers that look at the stale corners, count slots, stop at the first     *)
(* removed slot or drop the last slots when some were removed break it        *)
(* (Fault), so the histories explored tell these apart.  Every history with   *)
(* every consumer is printed to be replayed on the implementation, beside a   *)
(* twin that never had the removed triangles.                                 *)
EXTENDS Mesh, TLC
CONSTANTS Depth, Fault, Emit
VARIABLES slots,    \* <<[t |-> corners, dead |-> BOOLEAN], ...>>
          hist, n, done
TS(x) == ToString(x)
PosS == "6 0 0 0 2 0 0 0 2 0 0 0 2 1 1 -1 2 0 1"
Vtx == << P3(0, 0, 0), P3(2, 0, 0), P3(0, 2, 0), P3(0, 0, 2), P3(1, 1, -1), P3(2, 0, 1) >>
Pool == << <<0, 1, 2>>, <<0, 3, 1>>, <<1, 2, 3>>, <<2, 4, 1>>, <<1, 5, 5>> >>
Tr(i) == TS(i - 1) \o "=" \o TS(slots[i].t[1]) \o "." \o TS(slots[i].t[2]) \o "." \o TS(slots[i].t[3])   \* by slot and corners
Ix(x) == TS(x[1]) \o " " \o TS(x[2]) \o " " \o TS(x[3])
MkMesh(s) == [c |-> -1, v |-> Vtx, t |-> [i \in DOMAIN s |-> IF s[i].dead THEN <<>> ELSE s[i].t]]
Twin == SelectSeq(slots, LAMBDA x : ~x.dead)
\* the triangles a reader works on
FirstDead(s) == CHOOSE i \in DOMAIN s : s[i].dead /\ \A j \in 1 .. i - 1 : ~s[j].dead
NLive(s) == Cardinality({i \in DOMAIN s : ~s[i].dead})
Seen(s) == LET a == CASE Fault = "stale" -> s
                      [] Fault = "stop" /\ (\E i \in DOMAIN s : s[i].dead) -> SubSeq(s, 1, FirstDead(s) - 1)
                      [] Fault = "short" -> SelectSeq(SubSeq(s, 1, NLive(s)), LAMBDA x : ~x.dead)
                      [] OTHER -> SelectSeq(s, LAMBDA x : ~x.dead) IN
           [i \in DOMAIN a |-> a[i].t]
\* what the readers show: number of triangles announced, surface, volume, outline, degenerate or not
Shows(s) == LET ts == Seen(s)
                m == [c |-> -1, v |-> Vtx, t |-> ts] IN
            [count |-> IF Fault = "count" THEN Len(s) ELSE Len(ts), tris |-> ts,
             vol |-> SixVolume(m), area |-> AreaVec(m), edge |-> Boundary(m),
             deg |-> \E i \in DOMAIN ts : Area2of(Pos(m, ts[i][1]), Pos(m, ts[i][2]), Pos(m, ts[i][3])) = Zero]
Blind == Shows(slots) = Shows(Twin)

LoadTwin == "m_strip B A;"
Cut == "m_load T -1 3 -1 0.5 0.25 3 0.5 0.25 0.5 0.5 -2 1 0 1 2 0;"
Consumers == << "measure", "copy", "append", "merge", "drop", "tess", "patches", "stl", "obj", "draw", "split", "boolA", "boolB", "move", "face" >>
\* a triangle pricking this one inside, with a corner in its plane
Prick(x) == LET s == {x[1], x[2], x[3]} IN
            CASE s = {0, 1, 2} -> "0.5 0.5 -1 0.5 0.5 1 3 3 0"
              [] s = {0, 1, 3} -> "0.5 -1 0.5 3 0 3 0.5 1 0.5"
              [] s = {1, 2, 3} -> "2 0 0 -0.5 -0.5 0 1.5 1.5 2"
              [] s = {1, 2, 4} -> "0.5 0.5 -0.5 1.5 1.5 -0.5 2 0 5"
              [] OTHER -> "-1 0.5 0.25 3 0.5 0.25 0.5 0.5 -2"
Both(c, k) ==   \* k: the consumer's commands, with A for the mesh and X for the outputs, run on both meshes
  CASE c = "measure" -> "m_measure A;m_measure B;m_twin A B"
    [] c = "copy"    -> "m_copy X A;m_copy Y B;m_twin X Y;m_assign Z A;m_twin Z Y"
    [] c = "append"  -> "m_load X 1 " \o PosS \o " 1 2 1 0 0;m_copy Y X;m_append X A;m_append Y B;m_twin X Y;m_append A A;m_append B B;m_twin A B"
    [] c = "merge"   -> "m_merge A 1.25;m_merge B 1.25;m_twin A B"
    [] c = "drop"    -> "m_remove_empty A 1e-6;m_remove_empty B 1e-6;m_twin A B"
    [] c = "tess"    -> "m_tessellate X A 2;m_tessellate Y B 2;m_twin X Y"
    [] c = "patches" -> "o_from_mesh X A;o_from_mesh Y B;o_mesh P X 1 2;o_mesh Q Y 1 2;m_twin P Q"
    [] c = "stl"     -> "f_save S Sa A;f_save S Sb B;f_load S Sa X;f_load S Sb Y;m_twin X Y"
    [] c = "obj"     -> "f_save O Oa A;f_save O Ob B;f_load O Oa X;f_load O Ob Y;m_twin X Y"
    [] c = "draw"    -> "r_new R 16 14;r_cam R 0 0 0 12 180 0 0 40;r_new S 16 14;r_cam S 0 0 0 12 180 0 0 40;r_mesh R A " \o k \o " -1;r_mesh S B " \o k \o " -1;r_twin R S"
    [] c = "split"   -> "m_split_tri A !" \o TS(FirstDead(slots) - 1) \o " " \o Prick(slots[FirstDead(slots)].t) \o ";m_twin A B"
    [] c = "boolA"   -> Cut \o "m_boolean A T;m_copy X Aonly;m_copy Y Bonly;m_boolean B T;m_twin X Aonly;m_twin Y Bonly"
    [] c = "boolB"   -> Cut \o "m_boolean T A;m_copy X Aonly;m_copy Y Bonly;m_boolean T B;m_twin X Aonly;m_twin Y Bonly"
    [] c = "move"    -> "m_transform A scale 3 2 -1 0.5;m_transform B scale 3 2 -1 0.5;m_twin A B"
    [] c = "face"    -> "f_from_mesh F A;f_from_mesh G B;s_from_mesh J A;s_from_mesh K B;f_copy H F;s_add_face J H;s_add_face K H"

Init == slots = <<>> /\ n = 0 /\ done = FALSE /\ hist = "m_load A 5 " \o PosS \o " 0;"
Log(s) == hist' = hist \o s \o ";"
Add(k) == slots' = Append(slots, [t |-> Pool[k], dead |-> FALSE]) /\ Log("m_add_triangle A " \o Ix(Pool[k])) /\ n' = n + 1 /\ done' = done
Remove(i) == /\ ~slots[i].dead
             /\ slots' = [slots EXCEPT ![i].dead = TRUE] /\ Log("m_unlink A " \o Tr(i)) /\ n' = n + 1 /\ done' = done
Turn(i) == /\ ~slots[i].dead        \* reversing moves the triangle to a new slot
           /\ LET x == slots[i].t IN slots' = Append([slots EXCEPT ![i].dead = TRUE], [t |-> <<x[1], x[3], x[2]>>, dead |-> FALSE])
           /\ Log("m_flip A " \o Tr(i)) /\ n' = n + 1 /\ done' = done
Consume(c, k) == /\ \E i \in DOMAIN slots : slots[i].dead
                 /\ (c = "patches") => \E i \in DOMAIN slots : ~slots[i].dead
                 /\ done' = TRUE /\ n' = n /\ slots' = slots
                 /\ hist' = hist \o LoadTwin \o Both(c, k) \o ";"
Next == /\ ~done
        /\ \/ n < Depth /\ \E k \in DOMAIN Pool : Add(k)
           \/ n < Depth /\ \E i \in DOMAIN slots : Remove(i) \/ Turn(i)
           \/ \E c \in DOMAIN Consumers : Consume(Consumers[c], TS(n % 2))
Spec == Init /\ [][Next]_<<slots, hist, n, done>>
View == <<slots, n, done>>
EmitAll == (Emit /\ done') => PrintT("@@" \o hist')
=============================================================================
