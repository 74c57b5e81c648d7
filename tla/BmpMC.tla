-------------------------------- MODULE BmpMC --------------------------------
(* Every short history of edits, saves and loads of two images over two files *)
(* that other programs may also write, in any of the forms that are correct.  *)
EXTENDS Encode
CONSTANTS Depth, Emit
VARIABLES a, b, disk, hist, n, chg
Sizes == {<<1, 1, 1>>, <<3, 2, 3>>, <<2, 2, 4>>, <<5, 1, 1>>, <<1, 3, 3>>}
RECURSIVE Bytes(_, _)
Bytes(d, i) == IF i > Len(d) THEN "" ELSE " " \o TS(d[i]) \o Bytes(d, i + 1)
LoadTxt(x, m) == "i_load " \o m \o " " \o TS(x.w) \o " " \o TS(x.h) \o " " \o TS(x.p) \o " " \o TS(Len(x.d)) \o Bytes(x.d, 1) \o ";"
Put(p, f) == "f_put " \o p \o " " \o TS(Len(f)) \o Bytes(f, 1)
NoFile == [k |-> "none", f |-> <<>>, img |-> NoImage]
Init == \E s \in Sizes : /\ a = TestImage(s[1], s[2], s[3]) /\ b = NoImage /\ disk = [p \in {"B1", "B2"} |-> NoFile] /\ n = 0 /\ chg = {}
                         /\ hist = LoadTxt(TestImage(s[1], s[2], s[3]), "A")
\* the same image as others store it: lines from the top, a gap before the pixels
SetLe(f, o, v, k) == [i \in DOMAIN f |-> IF i \in o .. o + k - 1 THEN Le(v, k)[i - o + 1] ELSE f[i]]
Negative(v) == <<(256 - v) % 256, 255, 255, 255>>
Turned(s) == LET t == [s EXCEPT !.d = [i \in DOMAIN s.d |-> LET y == (i - 1) \div (s.w * s.p) r == (i - 1) % (s.w * s.p) IN s.d[(s.h - 1 - y) * s.w * s.p + r + 1]]]
                 f == BmpEncode(t) IN [i \in DOMAIN f |-> IF i \in 23 .. 26 THEN Negative(s.h)[i - 22] ELSE f[i]]
Gap(s) == LET f == BmpEncode(s) o == I32(f, 11) g == SetLe(f, 11, o + 5, 4) IN SetLe(SubSeq(g, 1, o) \o <<9, 8, 7, 6, 5>> \o SubSeq(g, o + 1, Len(g)), 3, Len(g) + 5, 4)
Forms(s) == {Turned(s), Gap(s)}
Log(s) == hist' = hist \o s \o ";" /\ n' = n + 1
Next ==
  /\ n < Depth
  /\ \/ \E v \in {7, 200} : a' = ISet(a, a.w - 1, 0, a.p - 1, v) /\ a' # a /\ UNCHANGED <<b, disk>> /\ Log("i_set A " \o TS(a.w - 1) \o " 0 " \o TS(a.p - 1) \o " " \o TS(v))
     \/ a' = ISet(a, 0, a.h - 1, 0, 99) /\ a' # a /\ UNCHANGED <<b, disk>> /\ Log("i_set A 0 " \o TS(a.h - 1) \o " 0 99")
     \/ \E p \in {"B1", "B2"} :
          \/ disk' = [disk EXCEPT ![p] = [k |-> "B", f |-> BmpEncode(a), img |-> a]] /\ UNCHANGED <<a, b>> /\ Log("f_save B " \o p \o " A")
          \/ disk[p].k # "none" /\ b' = disk[p].img /\ UNCHANGED <<a, disk>> /\ Log("f_load B " \o p \o " B")
          \/ disk[p].k # "none" /\ a' = disk[p].img /\ UNCHANGED <<b, disk>> /\ Log("f_load B " \o p \o " A")
          \/ /\ disk[p].k = "B" /\ \E f \in Forms(disk[p].img) : disk' = [disk EXCEPT ![p] = [k |-> "other", f |-> f, img |-> disk[p].img]] /\ Log(Put(p, f))
             /\ UNCHANGED <<a, b>>
     \/ b.w > 0 /\ disk' = [disk EXCEPT !["B2"] = [k |-> "B", f |-> BmpEncode(b), img |-> b]] /\ UNCHANGED <<a, b>> /\ Log("f_save B B2 B")
  /\ chg' = {p \in DOMAIN disk : disk'[p] # disk[p]}
EmitAll == (Emit /\ n' = Depth) => PrintT("@@" \o hist')
Spec == Init /\ [][Next]_<<a, b, disk, hist, n, chg>>
Stored == /\ IWellFormed(a) /\ IWellFormed(b)
          /\ \A p \in chg : LET d == disk[p] IN
               /\ d.k = "B" => BmpDescribes(d.f, d.img) /\ BmpHolds(d.f, d.img)
               /\ d.k = "other" => BmpCorrect(d.f) /\ BmpHolds(d.f, d.img)
               /\ ~BmpReadable(SubSeq(d.f, 1, Len(d.f) - 1))
=============================================================================
