------------------------------- MODULE CopyMC -------------------------------
(* Value semantics.  Three objects of one kind are copied, assigned (also to   *)
(* themselves), appended, edited and cleared; val is what each must show.     *)
(* Beside it runs a store: every object owns a cell, and copying, assigning   *)
(* and appending work through these cells the way an implementation does      *)
(* (element by element for appending).  The invariant is that every cell      *)
(* shows its object's value and no cell is shared.  A store that shares       *)
(* cells, clears the target before reading the source, or reads the growing   *)
(* length of the source while appending breaks it (Fault = "share", "clear",  *)
(* "grow"), so the histories explored tell these apart.  Every transition is  *)
(* printed, for every kind of object, to be replayed on the implementation.   *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Depth, Fault, Emit
VARIABLES kind, val, ptr, heap, hist, n
Obj == {"A", "B", "C"}
MaxLen == 4
TS(x) == ToString(x)
P(k) == CASE k = 1 -> "0 0 0 2 0 0 0 3 0" [] k = 2 -> "1 1 1 4 1 1 1 5 2"
\* what edit k, clearing, copying ... is called
Edit(kd, x, k) ==
  CASE kd = "mesh" -> "m_add_triangle_p " \o x \o " " \o P(k)
    [] kd = "face" -> (IF k = 1 THEN "f_add_triangle_p " \o x \o " " \o P(k) ELSE "f_color " \o x \o " 77")
    [] kd = "solid" -> (IF k = 1 THEN "s_add_triangle_p " \o x \o " " \o P(k) ELSE "s_add_vertex " \o x \o " 3 1 2")
    [] kd = "smooth" -> "sm_flat_triangle " \o x \o " 3 " \o P(k)
    [] kd = "patch" -> (IF k = 1 THEN "b_points " \o x \o " 3 " \o P(2) ELSE "b_weights " \o x \o " 6 1 2 3 1 1 4")
    [] kd = "curve" -> (IF k = 1 THEN "c_points " \o x \o " 3 " \o P(1) ELSE "c_weights " \o x \o " 2 1 5")
    [] kd = "surface" -> (IF k = 1 THEN "n_points " \o x \o " 4 " \o P(1) \o " 9 9 9 2 2" ELSE "n_degree " \o x \o " 2 1")
    [] kd = "nsolid" -> (IF k = 1 THEN "n_points S 4 " \o P(1) \o " 9 9 9 2 2;o_add " \o x \o " S" ELSE "n_closed_u S 1;o_add " \o x \o " S")
    [] kd = "image" -> (IF k = 1 THEN "i_load " \o x \o " 2 1 3 4 9 8 7 6" ELSE "i_resize " \o x \o " 1 2 1;i_set " \o x \o " 0 1 0 200")
Kinds == {"mesh", "face", "solid", "smooth", "patch", "curve", "surface", "nsolid", "image"}
Pre(kd) == CASE kd = "mesh" -> "m" [] kd = "face" -> "f" [] kd = "solid" -> "s" [] kd = "smooth" -> "sm" [] kd = "patch" -> "b"
             [] kd = "curve" -> "c" [] kd = "surface" -> "n" [] kd = "nsolid" -> "o" [] kd = "image" -> "i"
New(kd, x) == Pre(kd) \o (IF kd = "image" THEN "_default " ELSE "_new ") \o x
Init == /\ kind \in Kinds
        /\ val = [x \in Obj |-> <<>>] /\ ptr = [x \in Obj |-> x] /\ heap = [x \in Obj |-> <<>>]
        /\ hist = New(kind, "A") \o ";" \o New(kind, "B") \o ";" \o New(kind, "C") \o ";" /\ n = 0
Log(s) == hist' = hist \o s \o ";" /\ n' = n + 1 /\ kind' = kind
Cell(x) == heap[ptr[x]]
Write(x, v) == heap' = [heap EXCEPT ![ptr[x]] = v] /\ ptr' = ptr
\* through the store
AssignCells(x, y) == IF Fault = "share" THEN ptr' = [ptr EXCEPT ![x] = ptr[y]] /\ heap' = heap
                     ELSE IF Fault = "clear" THEN Write(x, IF x = y THEN <<>> ELSE Cell(y))
                     ELSE Write(x, Cell(y))
\* element by element up to the length the source had (or has, when faulty: never ends for x = y, cut off here)
AppendCells(x, y) == Write(x, IF x = y /\ Fault = "grow" THEN Cell(x) \o Cell(x) \o Cell(x) ELSE Cell(x) \o Cell(y))
Next == /\ n < Depth
        /\ \/ \E x, y \in Obj : /\ x # y \/ Cell(x) # <<>>
                                /\ val' = [val EXCEPT ![x] = val[y]] /\ AssignCells(x, y) /\ Log(Pre(kind) \o "_assign " \o x \o " " \o y)
           \/ \E x, y \in Obj : /\ x # y /\ val[x] # val[y]
                                /\ val' = [val EXCEPT ![x] = val[y]] /\ AssignCells(x, y) /\ Log(Pre(kind) \o "_copy " \o x \o " " \o y)
           \/ \E x, y \in Obj : /\ kind \in {"mesh", "smooth"} /\ Len(val[x]) + Len(val[y]) <= MaxLen
                                /\ val' = [val EXCEPT ![x] = @ \o val[y]] /\ AppendCells(x, y) /\ Log(Pre(kind) \o "_append " \o x \o " " \o y)
           \/ \E x \in Obj, k \in 1 .. 2 : /\ Len(val[x]) < MaxLen
                                           /\ val' = [val EXCEPT ![x] = Append(@, k)] /\ Write(x, Append(Cell(x), k)) /\ Log(Edit(kind, x, k))
           \/ \E x \in Obj : /\ val[x] # <<>> /\ val' = [val EXCEPT ![x] = <<>>] /\ Write(x, <<>>) /\ Log(New(kind, x))
Spec == Init /\ [][Next]_<<kind, val, ptr, heap, hist, n>>
View == <<kind, val, ptr, heap, n>>
Shown == \A x \in Obj : Cell(x) = val[x]
Separate == \A x, y \in Obj : x # y => ptr[x] # ptr[y]
EmitAll == Emit => PrintT("@@" \o hist')
=============================================================================
