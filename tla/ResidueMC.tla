------------------------------ MODULE ResidueMC ------------------------------
(* Outputs that are used again.  An object has several parts; an operation    *)
(* that fills it gives every part, whatever was there; an edit changes some.  *)
(* The model keeps, for every part, who gave it last.  After a filling        *)
(* operation only its own parts may be there.  Operations that leave a part   *)
(* ("keep"), add to it ("append") or fill only what is empty ("once") are      *)
(* refuted.  Every chain explored is printed: the operations on one object,   *)
(* then the last one on a fresh object, and the two compared.                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Depth, Fault, Emit, Kinds
VARIABLES kind, parts, last, hist, n
TS(x) == ToString(x)
Parts(kd) == CASE kd = "mesh" -> {"vertices", "triangles"} [] kd = "curve" -> {"degree", "knots", "weights", "points"}
               [] kd = "surface" -> {"degrees", "knots", "weights", "points", "closed"} [] kd = "solid" -> {"surfaces"}
               [] kd = "image" -> {"shape", "bytes"} [] kd = "smooth" -> {"patches"}
\* what has to be there before
Prep(kd) == CASE kd = "mesh" -> "n_factory T disk 1 2;o_factory U box 3 1 2 3;m_load N 7 4 0 0 0 1 0 0 0 1 0 0 0 1 2 0 1 2 0 1 2 3 0;f_save S S0 N;f_save O O0 N;"
              [] kd = "curve" -> "c_circle P 2;"
              [] kd = "surface" -> "c_circle P 2;c_from_points Q 3 1 0 0 1 0 1 3 0 2 1;c_from_points G 3 1 0 4 1 0 5 3 0 6 1;"
              [] kd = "solid" -> "m_load N 7 4 0 0 0 1 0 0 0 1 0 0 0 1 2 0 1 2 0 1 2 3 0;n_factory T disk 1 2;"
              [] kd = "image" -> "i_load J 3 2 3 5 9 200 31 4 77;i_load K 2 2 1 3 8 100 250;f_save B B0 J;f_save B B1 K;"
              [] kd = "smooth" -> "sm_factory P box 3 1 2 3;"
\* filling operations: text before and after the name
Fills(kd) ==
  CASE kd = "mesh" -> << <<"m_factory ", " tetrahedron 1 2 1">>, <<"m_factory ", " cylinder 2 2 1 3">>, <<"m_factory ", " box 3 1 2 3 1">>, <<"m_factory ", " sphere_uv 1 1 3">>, <<"m_factory ", " sphere_geodesic 1 1 2">>,
                         <<"m_factory ", " torus 2 3 1 3">>, <<"m_factory ", " octahedron 1 2 1">>, <<"m_factory ", " dodecahedron 1 2 1">>, <<"m_factory ", " icosahedron 1 2 1">>, <<"m_from_z ", " 3 2 6 1 2 3 4 5 6">>,
                         <<"m_from_grid ", " 2 2 4 0 0 0 1 0 0 0 1 1 1 1 5">>, <<"m_tessellate ", " N 2">>, <<"n_mesh ", " T 1 1">>, <<"n_mesh ", " T 2 2">>, <<"o_mesh ", " U 1 2">>, <<"n_ctrl ", " T">>,
                         <<"f_load S S0 ", "">>, <<"f_load O O0 ", "">>, <<"m_copy ", " N">>, <<"m_assign ", " N">>, <<"m_clear ", "">>, <<"m_tessellate ", " E 2">> >>
    [] kd = "curve" -> << <<"c_circle ", " 2">>, <<"c_circle ", " 0.5">>, <<"c_from_points ", " 4 0 0 0 1 1 1 2 0 0 3 3 3 2">>, <<"c_from_points ", " 2 0 0 0 1 1 1 1">>, <<"c_copy ", " P">>, <<"c_assign ", " P">>, <<"c_clear ", "">> >>
    [] kd = "surface" -> << <<"n_factory ", " triangle 9 0 0 0 1 0 0 0 1 0">>, <<"n_factory ", " quad 12 0 0 0 1 0 0 1 1 0 0 1 3">>, <<"n_factory ", " disk 1 2">>, <<"n_factory ", " sphere 1 1">>, <<"n_factory ", " torus 2 3 1">>,
                            <<"n_extrude ", " P 0 0 3">>, <<"n_extrude ", " Q 1 0 3">>, <<"n_ruled ", " Q G">>, <<"n_revolve ", " Q">>, <<"n_from_z ", " 3 3 2 9 1 2 3 4 5 6 7 8 9">>, <<"n_from_z ", " 4 2 1 8 1 2 3 4 5 6 7 8">>, <<"n_clear ", "">> >>
    [] kd = "solid" -> << <<"o_factory ", " box 3 1 2 3">>, <<"o_factory ", " cylinder 2 2 1">>, <<"o_factory ", " sphere 1 1">>, <<"o_factory ", " torus 2 3 1">>, <<"o_from_mesh ", " N">>, <<"o_from_mesh ", " E">>, <<"o_clear ", "">> >>
    [] kd = "image" -> << <<"i_sierpinski ", " 5 4">>, <<"i_sierpinski ", " 2 2">>, <<"i_mandelbrot ", " 4 3 9">>, <<"i_bw ", " J">>, <<"f_load B B0 ", "">>, <<"f_load B B1 ", "">>, <<"i_assign ", " J">>, <<"i_copy ", " K">> >>
    [] kd = "smooth" -> << <<"sm_factory ", " box 3 1 2 3">>, <<"sm_factory ", " tetrahedron 1 2">>, <<"sm_factory ", " sphere 1 1">>, <<"sm_factory ", " octahedron 1 2">>, <<"sm_factory ", " icosahedron 1 2">>, <<"sm_factory ", " dodecahedron 1 2">>, <<"sm_clear ", "">>, <<"sm_assign ", " P">> >>
\* edits of some parts
Edits(kd) ==
  CASE kd = "mesh" -> << [p |-> {"triangles"}, c |-> <<"m_add_triangle_p ", " 7 7 7 8 7 7 7 9 7;m_unlink ", " 0;m_color ", " 9">>], [p |-> {"vertices", "triangles"}, c |-> <<"m_append ", " N">>], [p |-> {"vertices"}, c |-> <<"m_add_vertex ", " 4 5 6">>] >>
    [] kd = "curve" -> << [p |-> {"weights"}, c |-> <<"c_weights ", " 12 2 3 4 5 6 7 8 9 1 2 3 4">>], [p |-> {"knots"}, c |-> <<"c_knots ", " 3 0 1 2">>], [p |-> {"degree"}, c |-> <<"c_degree ", " 5">>] >>
    [] kd = "surface" -> << [p |-> {"closed"}, c |-> <<"n_closed_u ", " 1">>], [p |-> {"closed"}, c |-> <<"n_closed_v ", " 1">>], [p |-> {"weights"}, c |-> <<"n_weights ", " 4 9 8 7 6">>], [p |-> {"knots"}, c |-> <<"n_knots_v ", " 3 0 2 5">>] >>
    [] kd = "solid" -> << [p |-> {"surfaces"}, c |-> <<"o_add ", " T">>] >>
    [] kd = "image" -> << [p |-> {"bytes", "shape"}, c |-> <<"i_resize ", " 6 5 4;i_set ", " 5 4 3 255;i_set ", " 0 0 0 3">>], [p |-> {"bytes", "shape"}, c |-> <<"i_resize ", " 1 1 1">>] >>
    [] kd = "smooth" -> << [p |-> {"patches"}, c |-> <<"sm_append ", " P">>] >>
Fresh(kd) == CASE kd = "mesh" -> "m_new Y;" [] kd = "curve" -> "c_new Y;" [] kd = "surface" -> "n_new Y;" [] kd = "solid" -> "o_new Y;" [] kd = "image" -> "i_default Y;" [] kd = "smooth" -> "sm_new Y;"
Cmp(kd) == CASE kd = "mesh" -> "m_twin X Y;" [] kd = "curve" -> "c_twin X Y;" [] kd = "surface" -> "n_twin X Y;" [] kd = "solid" -> "o_twin X Y;" [] kd = "image" -> "i_twin X Y;" [] kd = "smooth" -> "sm_twin X Y;"
RECURSIVE On(_, _)
On(c, x) == IF Len(c) = 1 THEN c[1] \o ";" ELSE c[1] \o x \o On(Tail(c), x)
Init == kind \in Kinds /\ parts = [p \in Parts(kind) |-> {}] /\ last = 0 /\ n = 0 /\ hist = Prep(kind)
Fill(k) == /\ parts' = [p \in DOMAIN parts |->
                 CASE Fault = "keep" /\ p = CHOOSE q \in DOMAIN parts : TRUE -> (IF parts[p] # {} THEN parts[p] ELSE {k})
                   [] Fault = "append" /\ k = 1 -> parts[p] \cup {k}
                   [] Fault = "once" /\ k = last -> parts[p] \cup {-k}
                   [] OTHER -> {k}]
           /\ last' = k
           /\ hist' = hist \o On(Fills(kind)[k], "X")
Edit(k) == /\ parts' = [p \in DOMAIN parts |-> IF p \in Edits(kind)[k].p THEN {-100 - k} ELSE parts[p]] /\ last' = 0 - k
           /\ hist' = hist \o On(Edits(kind)[k].c, "X")
Next == /\ n < Depth /\ n' = n + 1 /\ kind' = kind
        /\ \/ \E k \in DOMAIN Fills(kind) : Fill(k)
           \/ n + 1 < Depth /\ \E k \in DOMAIN Edits(kind) : Edit(k)
Spec == Init /\ [][Next]_<<kind, parts, last, hist, n>>
NoResidue == last > 0 => \A p \in DOMAIN parts : parts[p] = {last}
EmitAll == (Emit /\ last' > 0 /\ n' > 1) => PrintT("@@" \o hist' \o Fresh(kind) \o On(Fills(kind)[last'], "Y") \o Cmp(kind))
=============================================================================
