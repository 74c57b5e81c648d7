------------------------------- MODULE GridMC -------------------------------
(* Height fields and grids of every small size: the canonical triangulation,  *)
(* any mix of the two diagonals, satisfies the relation; no transposed, holed *)
(* or flipped one does.  Every size is printed with a height field that tells *)
(* every sample apart, to be built by the implementation in fresh and in used *)
(* objects, as a mesh, from a grid of points, as a surface and from an image. *)
EXTENDS MeshOps, TLC
CONSTANTS W, H, Emit
VARIABLES w, h, diag
TS(x) == ToString(x)
Cells == (w - 1) * (h - 1)
\* diag: which diagonal the k-th cell uses (bit pattern, periodic)
Cell(k) == LET i == (k - 1) % (w - 1) j == (k - 1) \div (w - 1) a == i + w * j IN
           IF (diag = 1 \/ (diag = 2 /\ (i + j) % 2 = 0)) THEN QuadA(a, a + 1, a + 1 + w, a + w) ELSE QuadB(a, a + 1, a + 1 + w, a + w)
Canon == LET F[k \in 0 .. Cells] == IF k = 0 THEN <<>> ELSE F[k - 1] \o Cell(k) IN F[Cells]
Z(k) == (7 * k + 3 * k * k) % 97
Init == w \in 1 .. W /\ h \in 1 .. H /\ diag \in {1, 2, 3}
Next == UNCHANGED <<w, h, diag>>
Spec == Init /\ [][Next]_<<w, h, diag>>
M == [c |-> -1, v |-> [k \in 1 .. w * h |-> <<RR((k - 1) % w), RR((k - 1) \div w), RR(Z(k))>>], t |-> Canon]
DEdges(t) == UNION {{<<t[i][1], t[i][2]>>, <<t[i][2], t[i][3]>>, <<t[i][3], t[i][1]>>} : i \in DOMAIN t}
Border(e) == LET x == {e[1] % w, e[2] % w} y == {e[1] \div w, e[2] \div w} IN
             (x = {0} \/ x = {w - 1} \/ y = {0} \/ y = {h - 1})
Sound == /\ WellFormed(M)
         /\ FromZPost(w, h, [k \in 1 .. w * h |-> RR(Z(k))], M)
         /\ FromGridPost(w, h, M.v, M)
         \* consistent winding, open only at the border
         /\ LET D == DEdges(M.t) IN /\ Cardinality(D) = 3 * Len(M.t)
                                    /\ \A e \in D : <<e[2], e[1]>> \in D \/ Border(e)
         \* every cell is covered once: the projected area of every triangle is half a cell, upwards
         /\ \A i \in DOMAIN M.t : REq(Cross(VSub(Tri(M, i - 1)[2], Tri(M, i - 1)[1]), VSub(Tri(M, i - 1)[3], Tri(M, i - 1)[1]))[3], One)
Tight == /\ \A i \in DOMAIN M.t : /\ ~GridTris(w, h, [M.t EXCEPT ![i] = <<M.t[i][1], M.t[i][3], M.t[i][2]>>])
                                  /\ ~GridTris(w, h, [M.t EXCEPT ![i] = <<>>])
         /\ (w # h /\ w > 1 /\ h > 1) => ~FromZPost(h, w, [k \in 1 .. w * h |-> RR(Z(k))], M)
RECURSIVE Zs(_), Gs(_), Bs(_)
Zs(k) == IF k = 0 THEN "" ELSE Zs(k - 1) \o " " \o TS(Z(k))
Gs(k) == IF k = 0 THEN "" ELSE Gs(k - 1) \o " " \o TS((k - 1) % w) \o " " \o TS(2 * ((k - 1) \div w)) \o " " \o TS(Z(k))
Bs(k) == IF k = 0 THEN "" ELSE Bs(k - 1) \o " " \o TS(Z(k) % 256)
N == w * h
WH == " " \o TS(w) \o " " \o TS(h)
EmitState == (Emit /\ diag = 1) => PrintT("@@m_from_z A" \o WH \o " " \o TS(N) \o Zs(N) \o ";m_from_grid B" \o WH \o " " \o TS(N) \o Gs(N)
      \o ";m_from_grid A" \o WH \o " " \o TS(N) \o Gs(N) \o ";m_from_z B" \o WH \o " " \o TS(N) \o Zs(N)
      \o (IF w > 1 /\ h > 1 THEN ";n_from_z S" \o WH \o " 1 " \o TS(N) \o Zs(N) \o ";n_ctrl B S" ELSE "")
      \o ";i_load I" \o WH \o " 1 " \o TS(N) \o Bs(N) \o ";i_to_double I 0;i_load I" \o WH \o " 4 " \o TS(N) \o Bs(N) \o ";i_to_double I 2 0 0;")
=============================================================================
