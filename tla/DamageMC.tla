------------------------------ MODULE DamageMC ------------------------------
(* Every file that one or two faults make of a small STL or BMP file: cut at  *)
(* any byte, any byte replaced, bytes appended.  Invariants: what the         *)
(* specification still calls complete can be read without leaving the file    *)
(* and gives a well formed object; everything else must be refused.           *)
EXTENDS Encode
CONSTANTS What, Depth, Emit
VARIABLES g, n
M0 == [c |-> -1, v |-> << P3(0, 0, 0), P3(1, 0, 0), P3(0, 2, 0), P3(0, 0, -3) >>, t |-> << <<0, 2, 1>>, <<0, 1, 3>> >>]
File0 == TLCEval(IF What = "S" THEN StlEncode(M0) ELSE BmpEncode(TestImage(3, 2, IF What = "B3" THEN 3 ELSE 4)))
L0 == Len(File0)
Fields == IF What = "S" THEN 81 .. 84 ELSE (1 .. 2) \cup {3, 35} \cup (11 .. 15) \cup (19 .. 31)
Vals == {0, 1, 2, 3, 4, 8, 16, 32, 127, 128, 255}
Init == g = File0 /\ n = 0
Poke(i, v) == i <= Len(g) /\ g[i] # v /\ g' = [g EXCEPT ![i] = v]
Next == /\ n < Depth /\ n' = n + 1
        /\ \/ \E k \in 0 .. Len(g) - 1 : g' = SubSeq(g, 1, k)
           \/ \E i \in Fields, v \in Vals : Poke(i, v)
           \/ n = 0 /\ \E i \in 1 .. Len(g), v \in {0, 1, 128, 255} : Poke(i, v)
           \/ n = 0 /\ \E k \in {1, 50, 51, 300} : g' = g \o Repeat(65, k)
Spec == Init /\ [][Next]_<<g, n>>
\* reading stays inside the file and gives a valid object
Safe == IF What = "S"
        THEN StlComplete(g) => LET k == I32(g, 81) IN StlHeader + 50 * k <= Len(g) /\ LET m == StlDecode(-1, g) IN Len(m.v) = 3 * k /\ \A i \in DOMAIN m.t : \A j \in 1 .. 3 : ValidV(m, m.t[i][j])
        ELSE BmpReadable(g) =>
               /\ BmpRow(g) * BmpH(g) <= Len(g)              \* no more memory than the file is long
               /\ \A x \in {0, BmpW(g) - 1}, y \in {0, BmpH(g) - 1}, k \in {0, (BmpBpp(g) \div 8) - 1} :
                    LET line == IF BmpTopDown(g) THEN y ELSE BmpH(g) - 1 - y IN
                    BmpOffset(g) + line * BmpRow(g) + x * (BmpBpp(g) \div 8) + k + 1 \in 1 .. Len(g)
Whole == n = 0 => (IF What = "S" THEN StlComplete(g) ELSE BmpCorrect(g))
CutIsRefused == (n = 1 /\ Len(g) < L0) => (IF What = "S" THEN ~StlComplete(g) ELSE ~BmpReadable(g))
RECURSIVE Bytes(_, _)
Bytes(d, i) == IF i > Len(d) THEN "" ELSE " " \o TS(d[i]) \o Bytes(d, i + 1)
EmitState == (Emit > 0 /\ n = Emit) => PrintT("@@" \o TS(Len(g)) \o Bytes(g, 1) \o ";")
=============================================================================
