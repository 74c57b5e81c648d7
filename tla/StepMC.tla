-------------------------------- MODULE StepMC --------------------------------
(* Every short history of two STEP writers over two surfaces and a solid that *)
(* are edited between writes.  The encoder numbers the entities as they come. *)
(* Invariants: a closed file describes what was written, in order; it would   *)
(* not if any entity, reference, number, flag or list item of it changed.     *)
EXTENDS Files
CONSTANTS Depth, Emit
VARIABLES sf, so, disk, w, hist, n, chg
TS(x) == ToString(x)
\* ------------------------------------------------------------ encoder
Rf(i) == [t |-> "r", v |-> i]
In(i) == [t |-> "i", v |-> i]
Nu(x) == [t |-> "n", v |-> x]
En(x) == [t |-> "e", v |-> x]
St == [t |-> "s", v |-> "'"]
Ls(s) == [t |-> "l", v |-> s]
Pt(k, a) == [k |-> k, a |-> a]
Ent(i, k, a) == [id |-> i, p |-> << Pt(k, a) >>]
Head0 == << Pt("FILE_SCHEMA", << Ls(<<St>>) >>) >>
Data0 == << Ent(10, "SHAPE_DEFINITION_REPRESENTATION", <<Rf(11), Rf(12)>>), Ent(11, "PRODUCT_DEFINITION_SHAPE", <<St, [t |-> "u", v |-> 0], Rf(14)>>),
            Ent(12, "SHAPE_REPRESENTATION", <<St, Ls(<<>>), St>>), Ent(13, "PRODUCT_DEFINITION_CONTEXT", <<St, St, St>>),
            Ent(14, "PRODUCT_DEFINITION", <<St, St, St, Rf(13)>>) >>
RECURSIVE Mults(_)
Mults(k) == IF k = <<>> THEN <<>> ELSE LET m == Cardinality({i \in DOMAIN k : k[i] = k[1]}) IN << [x |-> k[1], m |-> m] >> \o Mults(SubSeq(k, m + 1, Len(k)))
KM(k) == Ls([i \in DOMAIN Mults(k) |-> In(Mults(k)[i].m)])
KV(k) == Ls([i \in DOMAIN Mults(k) |-> Nu(Mults(k)[i].x)])
Rows(s, F(_)) == Ls([i \in 1 .. s.nu |-> Ls([j \in 1 .. s.nv |-> F(i + s.nu * (j - 1))])])
SurfEntities(s, o) ==
  LET np == Len(s.p) f == o + np IN
  [i \in 1 .. np |-> Ent(o + i - 1, "CARTESIAN_POINT", <<St, Ls(<<Nu(s.p[i][1]), Nu(s.p[i][2]), Nu(s.p[i][3])>>)>>)]
  \o << [id |-> f, p |-> << Pt("BOUNDED_SURFACE", <<>>),
           Pt("B_SPLINE_SURFACE", <<In(s.du), In(s.dv), Rows(s, LAMBDA x : Rf(o + x - 1)), En("UNSPECIFIED"), En(Flag(s.cu)), En(Flag(s.cv)), En("F")>>),
           Pt("B_SPLINE_SURFACE_WITH_KNOTS", <<KM(s.ku), KM(s.kv), KV(s.ku), KV(s.kv), En("UNSPECIFIED")>>),
           Pt("GEOMETRIC_REPRESENTATION_ITEM", <<>>), Pt("RATIONAL_B_SPLINE_SURFACE", <<Rows(s, LAMBDA x : Nu(s.w[x]))>>),
           Pt("REPRESENTATION_ITEM", <<St>>), Pt("SURFACE", <<>>) >>],
        Ent(f + 1, "ADVANCED_FACE", <<St, Ls(<<>>), Rf(f), En("T")>>), Ent(f + 2, "CLOSED_SHELL", <<St, Ls(<<Rf(f + 1)>>)>>),
        Ent(f + 3, "MANIFOLD_SOLID_BREP", <<St, Rf(f + 2)>>), Ent(f + 4, "ADVANCED_BREP_SHAPE_REPRESENTATION", <<St, Ls(<<Rf(f + 3)>>), St>>),
        Ent(f + 5, "SHAPE_REPRESENTATION_RELATIONSHIP", <<St, St, Rf(12), Rf(f + 4)>>) >>
RECURSIVE AllEntities(_, _)
AllEntities(surfs, o) == IF surfs = <<>> THEN <<>> ELSE LET e == SurfEntities(Head(surfs), o) IN e \o AllEntities(Tail(surfs), o + Len(e))
StepEncode(surfs) == [ok |-> TRUE, h |-> Head0, d |-> Data0 \o AllEntities(surfs, 20)]

\* ------------------------------------------------------------ histories
Qr(s) == [i \in DOMAIN s |-> RDiv(RR(s[i]), RR(4))]
S(du, dv, ku, kv, ws, p) == [du |-> du, dv |-> dv, ku |-> Qr(ku), kv |-> Qr(kv), nu |-> Len(ku) - du - 1, nv |-> Len(kv) - dv - 1,
                             cu |-> FALSE, cv |-> FALSE, w |-> Qr(ws), p |-> [i \in DOMAIN p |-> P3(p[i][1], p[i][2], p[i][3])]]
SA == S(1, 1, <<0,0,4,4>>, <<0,0,1,4,4>>, <<4,3,2,5,6,7>>, <<<<0,0,0>>,<<1,0,0>>,<<0,1,2>>,<<1,1,-3>>,<<0,2,5>>,<<1,2,7>>>>)
SB == S(2, 1, <<0,0,0,2,2,4,4,4>>, <<0,0,4,4>>, <<4,3,2,5,6,7,8,9,1,2>>, [i \in 1 .. 10 |-> <<i, i * i, 3 - i>>])
Lst(s) == TS(Len(s)) \o FoldLeft(LAMBDA x, y : x \o " " \o TS(RFloor(y \otimes RR(4))), "", s)
LstW(s) == TS(Len(s)) \o FoldLeft(LAMBDA x, y : x \o " " \o (CASE y = RR("0.25") -> "0.25" [] y = RR("0.5") -> "0.5" [] y = RR("0.75") -> "0.75" [] y = RR("1.25") -> "1.25" [] y = RR("1.5") -> "1.5" [] y = RR("1.75") -> "1.75" [] y = RR("2.25") -> "2.25" [] OTHER -> TS(RFloor(y))), "", s)
PL(s) == TS(Len(s)) \o FoldLeft(LAMBDA x, y : x \o " " \o TS(RFloor(y[1])) \o " " \o TS(RFloor(y[2])) \o " " \o TS(RFloor(y[3])), "", s)
Make(m, s) == "n_degree " \o m \o " " \o TS(s.du) \o " " \o TS(s.dv) \o ";n_points " \o m \o " " \o PL(s.p) \o " " \o TS(s.nu) \o " " \o TS(s.nv)
              \o ";n_knots_u " \o m \o " " \o Lst(s.ku) \o ";n_knots_v " \o m \o " " \o Lst(s.kv) \o ";n_weights " \o m \o " " \o LstW(s.w) \o ";"
NoFile == [open |-> FALSE, f |-> StepEncode(<<>>), surfs |-> <<>>, k |-> "none"]
NoW == [p |-> "", surfs |-> <<>>]
Init == /\ sf = [x \in {"A", "B"} |-> IF x = "A" THEN SA ELSE SB] /\ so = <<>> /\ disk = [p \in {"P1", "P2"} |-> NoFile]
        /\ w = [x \in {"W", "V"} |-> NoW] /\ n = 0 /\ chg = {} /\ hist = Make("A", SA) \o Make("B", SB)
Log(s) == hist' = hist \o s \o ";" /\ n' = n + 1
AfterClose(d, x) == IF w[x].p = "" THEN d ELSE [d EXCEPT ![w[x].p] = [open |-> FALSE, f |-> StepEncode(w[x].surfs), surfs |-> w[x].surfs, k |-> "step"]]
Next ==
  /\ n < Depth
  /\ \/ \E x \in {"W", "V"}, p \in {"P1", "P2"} :
          /\ \A y \in DOMAIN w \ {x} : w[y].p # p
          /\ w' = [w EXCEPT ![x] = [p |-> p, surfs |-> <<>>]]
          /\ disk' = [AfterClose(disk, x) EXCEPT ![p] = NoFile]
          /\ UNCHANGED <<sf, so>> /\ Log("sw_open " \o x \o " " \o p)
     \/ \E x \in {"W", "V"} :
          /\ w[x].p # ""
          /\ \/ \E m \in {"A", "B"} : w' = [w EXCEPT ![x].surfs = Append(@, sf[m])] /\ UNCHANGED disk /\ Log("sw_surf " \o x \o " " \o m)
             \/ so # <<>> /\ w' = [w EXCEPT ![x].surfs = @ \o so] /\ UNCHANGED disk /\ Log("sw_solid " \o x \o " O")
             \/ w' = [w EXCEPT ![x] = NoW] /\ disk' = AfterClose(disk, x) /\ (Log("sw_close " \o x) \/ Log("sw_del " \o x))
          /\ UNCHANGED <<sf, so>>
     \/ \E m \in {"A", "B"} : /\ Len(so) < 3 /\ so' = Append(so, sf[m]) /\ UNCHANGED <<sf, disk, w>> /\ Log("o_add O " \o m)
     \/ sf["A"].p[2] # P3(9, 9, -9) /\ sf' = [sf EXCEPT !["A"].p[2] = P3(9, 9, -9)] /\ UNCHANGED <<so, disk, w>> /\ Log("n_move A 1 9 9 -9")
     \/ ~sf["B"].cu /\ sf' = [sf EXCEPT !["B"].cu = TRUE] /\ UNCHANGED <<so, disk, w>> /\ Log("n_closed_u B 1")
     \/ ~sf["A"].cv /\ sf' = [sf EXCEPT !["A"].cv = TRUE] /\ UNCHANGED <<so, disk, w>> /\ Log("n_closed_v A 1")
  /\ chg' = {p \in DOMAIN disk : disk'[p] # disk[p]}
Final == (IF w'["W"].p # "" THEN "sw_close W;" ELSE "") \o (IF w'["V"].p # "" THEN "sw_del V;" ELSE "")
EmitAll == (Emit /\ n' = Depth) => PrintT("@@" \o hist' \o Final)
Spec == Init /\ [][Next]_<<sf, so, disk, w, hist, n, chg>>
Described == \A p \in chg : disk[p].k = "step" => StepDescribes(disk[p].f, disk[p].surfs)

\* ------------------------------------------------------------ sensitivity
RECURSIVE Changed(_, _)          \* values one step away from v, keeping its type
Drop(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
Changed(v, ids) ==
  CASE v.t = "i" -> {In(v.v + 1)}
    [] v.t = "n" -> {Nu(v.v \oplus RR("1/1000"))}
    [] v.t = "e" -> IF v.v = "T" THEN {En("F")} ELSE IF v.v = "F" THEN {En("T")} ELSE {}
    [] v.t = "r" -> {Rf(x) : x \in {y \in ids : y # v.v}}
    [] v.t = "l" -> {Ls(Drop(v.v, i)) : i \in DOMAIN v.v} \cup UNION {{Ls([v.v EXCEPT ![i] = y]) : y \in Changed(v.v[i], ids)} : i \in DOMAIN v.v}
    [] OTHER -> {}
Known == {"CARTESIAN_POINT", "B_SPLINE_SURFACE", "B_SPLINE_SURFACE_WITH_KNOTS", "RATIONAL_B_SPLINE_SURFACE", "ADVANCED_FACE", "CLOSED_SHELL", "MANIFOLD_SOLID_BREP",
          "ADVANCED_BREP_SHAPE_REPRESENTATION", "SHAPE_REPRESENTATION_RELATIONSHIP"}
\* self intersection is not stated by the surfaces
Noted(k, i) == k \in Known /\ ~(k = "B_SPLINE_SURFACE" /\ i = 7) /\ ~(k = "ADVANCED_FACE" /\ i = 2)
Small == <<SA>>
F0 == TLCEval(StepEncode(Small))
Sensitive ==
  LET d == F0.d ids == {12, 20, 21, 26, 27, 30, 99} IN
  /\ StepDescribes(F0, Small)
  /\ \A i \in DOMAIN d : i # 4 => ~StepDescribes([F0 EXCEPT !.d = Drop(@, i)], Small)
  /\ \A i, j \in DOMAIN d : i < j => ~StepDescribes([F0 EXCEPT !.d[j].id = d[i].id], Small)
  /\ \A i \in DOMAIN d : \A k \in DOMAIN d[i].p : \A a \in DOMAIN d[i].p[k].a :
       Noted(d[i].p[k].k, a) => \A v \in Changed(d[i].p[k].a[a], ids) : ~StepDescribes([F0 EXCEPT !.d[i].p[k].a[a] = v], Small)
  /\ ~StepDescribes([F0 EXCEPT !.ok = FALSE], Small) /\ ~StepDescribes([F0 EXCEPT !.h = <<>>], Small)
  /\ ~StepDescribes(F0, <<>>) /\ ~StepDescribes(F0, <<SA, SA>>) /\ ~StepDescribes(F0, <<SB>>)
  /\ ~StepDescribes(StepEncode(<<SA, SB>>), <<SB, SA>>) /\ StepDescribes(StepEncode(<<SA, SB, SA>>), <<SA, SB, SA>>)
ASSUME Sensitive
=============================================================================
