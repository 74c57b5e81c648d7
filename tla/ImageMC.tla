------------------------------- MODULE ImageMC -------------------------------
(* Every history of pixel operations on two small images, up to a depth: the  *)
(* definitions keep images well formed, a written value is what is read until *)
(* it is written again, and writes do not disturb each other.  Every history  *)
(* is printed to be replayed on the implementation.                           *)
EXTENDS Image, TLC
CONSTANTS Depth, Emit
VARIABLES a, b, last, hist, n
TS(x) == ToString(x)
Shapes == {<<1, 1, 1>>, <<2, 1, 3>>, <<1, 2, 4>>, <<2, 3, 3>>, <<3, 2, 1>>}
Make(s) == [w |-> s[1], h |-> s[2], p |-> s[3], d |-> [i \in 1 .. s[1] * s[2] * s[3] |-> (i * 37) % 256]]
RECURSIVE Bytes(_, _)
Bytes(d, i) == IF i > Len(d) THEN "" ELSE " " \o TS(d[i]) \o Bytes(d, i + 1)
Load(x, m) == "i_load " \o m \o " " \o TS(x.w) \o " " \o TS(x.h) \o " " \o TS(x.p) \o " " \o TS(Len(x.d)) \o Bytes(x.d, 1) \o ";"
Init == \E s \in Shapes : /\ a = Make(s) /\ b = NoImage /\ last = <<>> /\ n = 0
                          /\ hist = Load(Make(s), "A")
Log(s) == hist' = hist \o s \o ";" /\ n' = n + 1
Corner(s) == {<<0, 0, 0>>, <<s.w - 1, s.h - 1, s.p - 1>>, <<s.w - 1, 0, s.p - 1>>, <<0, s.h - 1, 0>>}
\* the scaled image, rounding to nearest
ScaleTo(s, num, den) == [s EXCEPT !.d = [i \in DOMAIN s.d |-> LET v == (2 * num * s.d[i] + den) \div (2 * den) IN IF v > 255 THEN 255 ELSE v]]
BWOf(s) == [w |-> s.w, h |-> s.h, p |-> 1, d |-> [i \in 1 .. s.w * s.h |-> (s.d[s.p * (i - 1) + 1] + s.d[s.p * (i - 1) + 2] + s.d[s.p * (i - 1) + 3]) \div 3]]
Next == /\ n < Depth
        /\ \/ \E c \in Corner(a), v \in {0, 255} : a' = ISet(a, c[1], c[2], c[3], v) /\ b' = b /\ last' = <<c, v>>
                 /\ Log("i_set A " \o TS(c[1]) \o " " \o TS(c[2]) \o " " \o TS(c[3]) \o " " \o TS(v))
           \/ \E c \in Corner(a) : UNCHANGED <<a, b, last>> /\ Log("i_get A " \o TS(c[1]) \o " " \o TS(c[2]) \o " " \o TS(c[3]))
           \/ b' = a /\ UNCHANGED <<a, last>> /\ Log("i_assign B A")
           \/ a.p >= 3 /\ b' = BWOf(a) /\ UNCHANGED <<a, last>> /\ Log("i_bw B A")
           \/ \E k \in {1, 3} : a' = ScaleTo(a, k, 2) /\ last' = <<>> /\ b' = b /\ Log("i_scale A " \o (IF k = 1 THEN "0.5" ELSE "1.5"))
           \/ UNCHANGED <<a, b, last>> /\ Log("i_to_double A 3 1 2 3")
           \/ b.w > 0 /\ a' = b /\ b' = a /\ last' = <<>> /\ Log("i_copy C A;i_copy A B;i_copy B C")
Spec == Init /\ [][Next]_<<a, b, last, hist, n>>
Sound == IWellFormed(a) /\ IWellFormed(b)
Kept == last # <<>> => a.d[IAt(a, last[1][1], last[1][2], last[1][3])] = last[2]
Definitions == [][ /\ (n' = n + 1 /\ a' # a /\ last' = <<>> /\ b' = b) => \E k \in {1, 3} : ScalePost(a, RDiv(RR(k), RR(2)), a')
                   /\ (last' # last /\ last' # <<>>) => Cardinality({i \in DOMAIN a.d : a.d[i] # a'.d[i]}) <= 1
                   /\ (b' # b /\ b'.p = 1 /\ a.p >= 3 /\ a' = a) => BWPost(a, b') ]_<<a, b, last, hist, n>>
Addresses == \A x, y \in 0 .. 2, k, j \in 0 .. 3, x2, y2 \in 0 .. 2 :
   (x < a.w /\ x2 < a.w /\ y < a.h /\ y2 < a.h /\ k < a.p /\ j < a.p /\ <<x, y, k>> # <<x2, y2, j>>) => IAt(a, x, y, k) # IAt(a, x2, y2, j)
EmitAll == (Emit /\ n' = Depth) => PrintT("@@" \o hist')
\* the escape ranges are single values almost everywhere and never wider than the count allows
ASSUME \A x \in 0 .. 4 : \A y \in 0 .. 4 : LET r == MandelRange(x, y, 5, 5, 6) IN r[1] <= r[2] /\ r[1] >= 0 /\ r[2] <= 6
ASSUME \A k \in {8, 20} : Cardinality({q \in (0 .. 11) \X (0 .. 11) : LET r == MandelRange(q[1], q[2], 12, 12, k) IN r[1] = r[2]}) >= 115
=============================================================================
