------------------------------- MODULE FilesMC -------------------------------
(* Every short history of edits, saves, loads, damage, write faults and two   *)
(* OBJ writers.  Encoders give one file for each object; a file is stored up  *)
(* to the fault.  Invariants: a file reported stored describes its object, a  *)
(* cut file never does, what is loaded is what was saved.                     *)
EXTENDS Encode
CONSTANTS Depth, Emit
VARIABLES a, b, disk, w, hist, n, ok,
          chg      \* the files changed last
\* ------------------------------------------------------------ histories
Pts == << P3(0, 0, 0), P3(1, 0, 0), P3(0, 2, 0), P3(0, 0, -3), P3(4, -1, 2) >>
Base == [c |-> -1, v |-> Pts, t |-> << <<0, 2, 1>>, <<0, 1, 3>>, <<4, 3, 2>> >>]
Poly == <<P3(1, 2, 3), P3(-4, 0, 2)>>
Ptxt == " 2 1 2 3 -4 0 2"
BaseTxt == "m_load A -1 5 0 0 0 1 0 0 0 2 0 0 0 -3 4 -1 2 3 0 2 1 0 0 1 3 0 4 3 2 0;"
Files0 == [k |-> "none", f |-> <<>>, segs |-> <<>>]
NoW == [p |-> "", segs |-> <<>>]
Init == a = Base /\ b = EmptyMesh /\ disk = [p \in {"S1", "O1", "O2"} |-> Files0] /\ w = [x \in {"W", "V"} |-> NoW] /\ hist = BaseTxt /\ n = 0 /\ ok = TRUE /\ chg = {}
Log(s) == hist' = hist \o s \o ";" /\ n' = n + 1
Busy(p) == \E x \in DOMAIN w : w[x].p = p
Encoded(p, m) == IF p = "S1" THEN StlEncode(m) ELSE ObjLines(<<MeshSeg(m)>>, 0)
Kd(p) == IF p = "S1" THEN "S" ELSE "O"
Take(s, k) == SubSeq(s, 1, k)
Next ==
  /\ n < Depth
  /\ \/ \E t \in {1, 2} : a.t[t] # <<>> /\ a' = Unlink(a, t - 1) /\ UNCHANGED <<b, disk, w, ok>> /\ Log("m_unlink A " \o TS(t - 1))
     \/ a.c = -1 /\ a' = SetColor(a, 16744193) /\ UNCHANGED <<b, disk, w, ok>> /\ Log("m_color A 16744193")
     \/ a' = AddVertex(a, P3(2, 2, 2)) /\ UNCHANGED <<b, disk, w, ok>> /\ Log("m_add_vertex A 2 2 2")
     \/ \E p \in {"S1", "O1"} : /\ ~Busy(p) /\ disk' = [disk EXCEPT ![p] = [k |-> Kd(p), f |-> Encoded(p, a), segs |-> <<MeshSeg(a)>>]]
                                /\ ok' = TRUE /\ UNCHANGED <<a, b, w>> /\ Log("f_save " \o Kd(p) \o " " \o p \o " A")
     \* the disk takes only part of the file (the implementation is given that many bytes)
     \/ /\ ~Busy("S1")
        /\ \E k \in {0, 80, 84, 133, 183, 184, 234, 300} :
             LET f == StlEncode(a) IN
             /\ disk' = [disk EXCEPT !["S1"] = [k |-> IF k >= Len(f) THEN "S" ELSE "cut", f |-> Take(f, IF k >= Len(f) THEN Len(f) ELSE k), segs |-> <<MeshSeg(a)>>]]
             /\ ok' = (k >= Len(f)) /\ UNCHANGED <<a, b, w>> /\ Log("f_cap " \o TS(k) \o ";f_save S S1 A;f_cap -1")
     \/ \E p \in {"S1", "O1", "O2"} : /\ ~Busy(p) /\ disk[p].k \in {"S", "O"}
                                      /\ b' = (IF p = "S1" THEN StlDecode(b.c, disk[p].f) ELSE ObjDecode(b.c, disk[p].f))
                                      /\ UNCHANGED <<a, disk, w, ok>> /\ Log("f_load " \o Kd(p) \o " " \o p \o " B")
     \/ \E k \in {0, 83, 84, 100, 133} : /\ disk["S1"].k = "S" /\ k < Len(disk["S1"].f)
                                         /\ disk' = [disk EXCEPT !["S1"] = [@ EXCEPT !.k = "cut", !.f = Take(@, k)]]
                                         /\ UNCHANGED <<a, b, w, ok>> /\ Log("f_cut S1 " \o TS(k) \o ";f_load S S1 C")
     \/ \E x \in {"W", "V"}, p \in {"O1", "O2"} :
           /\ \A y \in DOMAIN w \ {x} : w[y].p # p
           /\ w' = [w EXCEPT ![x] = [p |-> p, segs |-> <<>>]]
           /\ disk' = [q \in DOMAIN disk |-> IF q = p THEN Files0 ELSE IF q = w[x].p THEN [k |-> "O", f |-> ObjLines(w[x].segs, 0), segs |-> w[x].segs] ELSE disk[q]]
           /\ UNCHANGED <<a, b, ok>> /\ Log("ow_open " \o x \o " " \o p)
     \/ \E x \in {"W", "V"} : /\ w[x].p # ""
           /\ \/ w' = [w EXCEPT ![x].segs = Append(@, MeshSeg(a))] /\ UNCHANGED disk /\ Log("ow_mesh " \o x \o " A")
              \/ w' = [w EXCEPT ![x].segs = Append(@, PolySeg(Poly))] /\ UNCHANGED disk /\ Log("ow_poly " \o x \o Ptxt)
              \/ /\ w' = [w EXCEPT ![x] = NoW]
                 /\ disk' = [disk EXCEPT ![w[x].p] = [k |-> "O", f |-> ObjLines(w[x].segs, 0), segs |-> w[x].segs]]
                 /\ \/ Log("ow_close " \o x) \/ Log("ow_del " \o x)
           /\ UNCHANGED <<a, b, ok>>
     \/ b.v # <<>> /\ a' = b /\ b' = b /\ UNCHANGED <<disk, w, ok>> /\ Log("m_assign A B")
  /\ chg' = {p \in DOMAIN disk : disk'[p] # disk[p]}
\* open writers are closed before the history is replayed
Final == (IF w'["W"].p # "" THEN "ow_close W;" ELSE "") \o (IF w'["V"].p # "" THEN "ow_del V;" ELSE "")
EmitAll == (Emit /\ n' = Depth) => PrintT("@@" \o hist' \o Final)
Spec == Init /\ [][Next]_<<a, b, disk, w, hist, n, ok, chg>>

\* what is stored describes what was given; loading it gives that back
Stored == /\ \A p \in chg : LET d == disk[p] IN
               /\ d.k = "S" => StlComplete(d.f) /\ StlDescribes(d.f, d.segs[1].m) /\ StlHolds(d.f, StlDecode(-1, d.f))
               /\ d.k = "O" => ObjDescribes(d.f, d.segs) /\ ObjCorrect(d.f) /\ ObjHolds(d.f, ObjDecode(-1, d.f))
               /\ (d.k = "cut" /\ Len(d.f) < Len(StlEncode(d.segs[1].m))) => ~StlComplete(d.f) /\ ~StlDescribes(d.f, d.segs[1].m)
          /\ WellFormed(b)
\* the description is sensitive: changing any number of the file, or any triangle, is noticed
Codec == (n = 0) =>
  /\ LET f == StlEncode(a) IN \A i \in (81 .. 84) \cup (97 .. 132) : \A v \in {64, 200} : f[i] # v => ~StlDescribes([f EXCEPT ![i] = v], a)
  /\ LET f == ObjLines(<<PolySeg(Poly), MeshSeg(a), PolySeg(Poly), MeshSeg(SetColor(a, 255))>>, 0)
         segs == <<PolySeg(Poly), MeshSeg(a), PolySeg(Poly), MeshSeg(SetColor(a, 255))>> IN
     /\ ObjDescribes(f, segs)
     /\ \A i \in DOMAIN f : \A k \in DOMAIN f[i].n : ~ObjDescribes([f EXCEPT ![i].n[k] = @ \oplus One], segs)
     /\ \A i \in DOMAIN f : ~ObjDescribes(SubSeq(f, 1, i - 1) \o SubSeq(f, i + 1, Len(f)), segs)
     /\ ~ObjDescribes(f, Tail(segs)) /\ ~ObjDescribes(f, segs \o <<PolySeg(Poly)>>)
\* images: encoding is read back, and nothing shorter is readable
ASSUME \A wd \in 1 .. 5, h \in {1, 2, 3}, p \in {1, 3, 4} :
  LET s == TestImage(wd, h, p) f == TLCEval(BmpEncode(s)) IN
  /\ BmpDescribes(f, s) /\ BmpHolds(f, s)
  /\ \A k \in {0, 1, 10, 53, 54, Len(f) - 1} : ~BmpReadable(SubSeq(f, 1, k))
  /\ \A i \in (1 .. 2) \cup (19 .. 20) \cup (23 .. 24) \cup {29, 31} : ~BmpDescribes([f EXCEPT ![i] = (@ + 4) % 256], s)
  /\ (wd > 1 /\ h > 1) => ~BmpDescribes(f, [s EXCEPT !.w = h, !.h = wd]) \/ wd = h
\* single precision numbers: the decoding is monotone and exact on known codes
ASSUME /\ F32(<<0, 0, 128, 63>>, 1) = RR(1) /\ F32(<<0, 0, 64, 192>>, 1) = RR(-3) /\ F32(<<1, 0, 0, 0>>, 1) = Pow2[-149]
       /\ F32(<<255, 255, 127, 127>>, 1) = (RR(2) \ominus Pow2[-23]) \otimes Pow2[127] /\ ~RIsNum(F32(<<0, 0, 128, 127>>, 1))
       /\ F32(<<205, 204, 204, 61>>, 1) # RR("1/10") /\ Single(RR("1/10"), F32(<<205, 204, 204, 61>>, 1)) /\ ~Single(RR("1/10"), F32(<<210, 204, 204, 61>>, 1))
       /\ Six(RR("1234567"), RR("1234570")) /\ ~Six(RR("1234567"), RR("1234580")) /\ I32(<<255, 255, 255, 255>>, 1) = -1
=============================================================================
