-------------------------------- MODULE FaultMC --------------------------------
(* A save as the operating system sees it: pieces go through a buffer to a    *)
(* disk that takes a limited number of bytes, or whose n-th transfers fail    *)
(* and that works again afterwards; a failed transfer is remembered.          *)
(* Invariants: the disk holds a prefix of the file unless a fault passed; the *)
(* status asked once everything has been flushed and closed is good only if   *)
(* the file is complete; a cut or torn file is never taken for a complete one.*)
(* Two ways of asking for the status are refuted (Fault): before the close    *)
(* ("early"), and after forgetting what happened before it ("forget").        *)
(* Every limit and every passing fault is printed to be replayed.             *)
EXTENDS Encode
CONSTANTS Emit, Fault
VARIABLES kind, cap, glitch, moved, size, todo, buf, disk, failed, early, last, phase
vars == <<kind, cap, glitch, moved, size, todo, buf, disk, failed, early, last, phase>>
M0 == [c |-> -1, v |-> << P3(0, 0, 0), P3(1, 0, 0), P3(0, 2, 0), P3(0, 0, -3) >>, t |-> << <<0, 2, 1>>, <<0, 1, 3>> >>]
I0(p) == TestImage(3, 2, p)
Kinds == {"S", "B1", "B3", "B4"}
Whole == TLCEval([k \in Kinds |-> IF k = "S" THEN StlEncode(M0) ELSE BmpEncode(I0(CASE k = "B1" -> 1 [] k = "B3" -> 3 [] OTHER -> 4))])
RECURSIVE Pieces(_, _)
Pieces(s, k) == IF Len(s) <= k THEN IF s = <<>> THEN <<>> ELSE <<s>> ELSE << SubSeq(s, 1, k) >> \o Pieces(SubSeq(s, k + 1, Len(s)), k)
Caps(k) == IF k = "B1" THEN (0 .. 60) \cup (1070 .. Len(Whole[k]) + 2) ELSE 0 .. Len(Whole[k]) + 2
\* transfers number g[1] .. g[1] + g[2] - 1 fail
NoGlitch == <<0, 0>>
Glitches(k) == {<<i, c>> : i \in 0 .. (IF k = "B1" THEN 6 ELSE 14), c \in {1, 2, 5}}
Init == \E k \in Kinds : \E z \in {16, 100000} :
          /\ \/ cap \in Caps(k) /\ glitch = NoGlitch
             \/ cap = 1000000 /\ glitch \in Glitches(k)
          /\ kind = k /\ size = z /\ todo = Pieces(Whole[k], 20) /\ buf = <<>> /\ disk = <<>> /\ failed = FALSE /\ early = TRUE /\ last = TRUE /\ moved = 0 /\ phase = "write"
Took(s, room) == SubSeq(s, 1, IF room < Len(s) THEN room ELSE Len(s))
Struck == moved >= glitch[1] /\ moved < glitch[1] + glitch[2]
Transfer(s) == LET room == IF Struck THEN 0 ELSE cap - Len(disk) IN
               /\ disk' = disk \o Took(s, room) /\ last' = (Len(s) <= room)
               /\ failed' = (failed \/ Len(s) > room) /\ moved' = moved + 1
Write == /\ phase = "write" /\ todo # <<>> /\ todo' = Tail(todo)
         /\ LET b == buf \o Head(todo) IN
            IF failed THEN UNCHANGED <<buf, disk, failed, last, moved>>          \* a bad stream takes nothing
            ELSE IF Len(b) >= size THEN Transfer(b) /\ buf' = <<>> ELSE buf' = b /\ UNCHANGED <<disk, failed, last, moved>>
         /\ UNCHANGED <<kind, cap, glitch, size, early, phase>>
Ask == phase = "write" /\ todo = <<>> /\ early' = ~failed /\ phase' = "asked" /\ UNCHANGED <<kind, cap, glitch, moved, size, todo, buf, disk, failed, last>>
Close == phase = "asked" /\ Transfer(buf) /\ buf' = <<>> /\ phase' = "closed" /\ UNCHANGED <<kind, cap, glitch, size, todo, early>>
Next == Write \/ Ask \/ Close
Spec == Init /\ [][Next]_vars
Status == CASE Fault = "early" -> early [] Fault = "forget" -> last [] OTHER -> ~failed
Prefix == glitch = NoGlitch => disk = SubSeq(Whole[kind], 1, Len(disk))
Complete == IF kind = "S" THEN StlDescribes(disk, M0) ELSE BmpDescribes(disk, I0(CASE kind = "B1" -> 1 [] kind = "B3" -> 3 [] OTHER -> 4))
Honest == phase = "closed" => (Status <=> disk = Whole[kind]) /\ (Status <=> Complete)
Distinguished == (phase = "closed" /\ failed) => (IF kind = "S" THEN ~StlComplete(disk) ELSE ~BmpReadable(disk))
EmitState == (Emit /\ phase = "closed" /\ size = 16) => PrintT("@@" \o kind \o ";" \o (IF glitch = NoGlitch THEN "f_cap " \o TS(cap) ELSE "f_glitch " \o TS(glitch[1]) \o " " \o TS(glitch[2]) \o " 0") \o ";")
=============================================================================
