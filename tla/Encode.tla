------------------------------- MODULE Encode -------------------------------
(* One file for each object: what a writer may store (design models only).    *)
EXTENDS Files
TS(x) == ToString(x)
\* ------------------------------------------------------------ encoders
Le(x, k) == [i \in 1 .. k |-> (x \div (CASE i = 1 -> 1 [] i = 2 -> 256 [] i = 3 -> 65536 [] OTHER -> 16777216)) % 256]
\* single precision code of the integers -4 .. 4
Code(i) == LET m == CASE i \in {0} -> <<0, 0>> [] i \in {1, -1} -> <<128, 63>> [] i \in {2, -2} -> <<0, 64>> [] i \in {3, -3} -> <<64, 64>> [] OTHER -> <<128, 64>>
           IN <<0, 0, m[1], m[2] + (IF i < 0 THEN 128 ELSE 0)>>
CodeP(p) == Code(RFloor(p[1])) \o Code(RFloor(p[2])) \o Code(RFloor(p[3]))
StlEncode(m) == LET s == LiveSeq(m) IN
  Repeat(0, 80) \o Le(Len(s), 4) \o Flat([i \in DOMAIN s |-> Repeat(0, 12) \o CodeP(Pos(m, s[i][1])) \o CodeP(Pos(m, s[i][2])) \o CodeP(Pos(m, s[i][3])) \o <<0, 0>>])
StlDecode(c, f) == LET k == I32(f, 81) IN
  [c |-> c, v |-> Flat([i \in 1 .. k |-> [j \in 1 .. 3 |-> StlVertex(f, i - 1, j - 1)]]), t |-> [i \in 1 .. k |-> <<3 * i - 3, 3 * i - 2, 3 * i - 1>>]]
Line(k, nums) == [k |-> k, c |-> TRUE, n |-> nums]
Cols(c) == IF c = -1 THEN <<>> ELSE <<RDiv(RR(c \div 65536), RR(255)), RDiv(RR((c \div 256) % 256), RR(255)), RDiv(RR(c % 256), RR(255))>>
RNums(s) == [i \in DOMAIN s |-> RR(s[i])]
RECURSIVE ObjLines(_, _)
ObjLines(segs, k) ==
  IF segs = <<>> THEN <<>>
  ELSE LET s == Head(segs) v == SegV(s) IN
       [i \in DOMAIN v |-> Line("v", v[i] \o Cols(SegC(s)))]
       \o (IF s.k = "poly" THEN << Line("l", [i \in DOMAIN v |-> RR(k + i)]) >>
           ELSE LET t == Shift(LiveSeq(s.m), k + 1) IN [i \in DOMAIN t |-> Line("f", RNums(t[i]))])
       \o ObjLines(Tail(segs), k + Len(v))
ObjDecode(c, ls) == [c |-> c, v |-> LET V == Lines(ls, "v") IN [i \in DOMAIN V |-> <<V[i].n[1], V[i].n[2], V[i].n[3]>>],
                     t |-> LET F == Lines(ls, "f") IN [i \in DOMAIN F |-> [j \in 1 .. 3 |-> Index(F[i].n[j]) - 1]]]
BmpEncode(s) ==
  LET pal == IF s.p = 1 THEN Flat([i \in 1 .. 256 |-> <<i - 1, i - 1, i - 1, 0>>]) ELSE <<>>
      row(y) == LET r == Flat([x \in 1 .. s.w |-> [k \in 1 .. s.p |-> s.d[IAt(s, x - 1, y, IF s.p = 1 \/ k = 4 THEN k - 1 ELSE 3 - k)]]]) IN r \o Repeat(0, (4 - (Len(r) % 4)) % 4)
      data == Flat([i \in 1 .. s.h |-> row(s.h - i)])
      off == 54 + Len(pal) IN
  <<66, 77>> \o Le(off + Len(data), 4) \o Le(0, 4) \o Le(off, 4) \o Le(40, 4) \o Le(s.w, 4) \o Le(s.h, 4) \o Le(1, 2) \o Le(8 * s.p, 2)
  \o Le(0, 4) \o Le(Len(data), 4) \o Le(2834, 4) \o Le(2834, 4) \o Le(0, 8) \o pal \o data
TestImage(wd, h, p) == [w |-> wd, h |-> h, p |-> p, d |-> [i \in 1 .. wd * h * p |-> (i * 67 + 13) % 256]]
=============================================================================
