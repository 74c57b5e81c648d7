-------------------------------- MODULE Image --------------------------------
(* Images: [w, h, p, d], d holding the value of plane k of pixel (x, y) at     *)
(* position 1 + k + p (x + w y).  Every operation is given by its pixel-wise   *)
(* definition.                                                                 *)
EXTENDS Vec
NoImage == [w |-> 0, h |-> 0, p |-> 1, d |-> <<>>]
IAt(s, x, y, k) == 1 + k + s.p * (x + s.w * y)
IShape(s, w, h, p) == s.w = w /\ s.h = h /\ s.p = p
IWellFormed(s) == /\ s.w >= 0 /\ s.h >= 0 /\ s.p >= 0 /\ Len(s.d) = s.w * s.h * s.p
                  /\ \A i \in DOMAIN s.d : s.d[i] \in 0 .. 255
IPixel(s, x, y) == SubSeq(s.d, IAt(s, x, y, 0), IAt(s, x, y, s.p - 1))
ISet(s, x, y, k, v) == [s EXCEPT !.d = [@ EXCEPT ![IAt(s, x, y, k)] = v]]

\* black and white: the integer part of the mean of the three colour planes
BWValue(s, x, y, v) == LET a == IAt(s, x, y, 0) m == s.d[a] + s.d[a + 1] + s.d[a + 2] IN v = m \div 3
BWPost(s, o) == /\ IShape(o, s.w, s.h, 1) /\ Len(o.d) = s.w * s.h
                /\ \A x \in 0 .. s.w - 1 : \A y \in 0 .. s.h - 1 : BWValue(s, x, y, o.d[IAt(o, x, y, 0)])
\* scaling multiplies and saturates, rounding to a nearest value
Saturate(r) == RMin(RMax(r, Zero), RR(255))
Half == RR("1/2")
ScaleValue(v, f, r) == RLe(RAbs(RR(r) \ominus Saturate(RR(v) \otimes f)), Half \oplus RR("1e-9"))
ScalePost(s, f, o) == /\ IShape(o, s.w, s.h, s.p) /\ Len(o.d) = Len(s.d)
                      /\ \A i \in DOMAIN s.d : ScaleValue(s.d[i], f, o.d[i])
\* the first plane as numbers, row by row
ToDoublePost(s, r) == /\ Len(r) = s.w * s.h
                      /\ \A x \in 0 .. s.w - 1 : \A y \in 0 .. s.h - 1 : REq(r[1 + x + s.w * y], RR(s.d[IAt(s, x, y, 0)]))

\* ------------------------------------------------------- fractals
RECURSIVE Disjoint(_, _)           \* no common binary digit
Disjoint(a, b) == IF a = 0 \/ b = 0 THEN TRUE ELSE ~(a % 2 = 1 /\ b % 2 = 1) /\ Disjoint(a \div 2, b \div 2)
SierpinskiPost(w, h, o) ==
  /\ IShape(o, w, h, 4) /\ IWellFormed(o)
  /\ \A x \in 0 .. w - 1 : \A y \in 0 .. h - 1 :
       LET a == IAt(o, x, y, 0) c == IF Disjoint(x, y) THEN 255 ELSE 0 IN o.d[a] = c /\ o.d[a + 1] = c /\ o.d[a + 2] = c
\* escape time of the point of a pixel: the number of steps z -> z^2 + c, from z = c, until |z| >= 2,
\* at most n.  The code computes in single precision: z is known up to e, and the range of possible
\* counts is <<lo, hi>> (one value unless some |z| is within e of 2).
R20 == RR("1/1048576")
R21 == RR("1/2097152")
Q(x) == RRound(x, 48)
RECURSIVE Escape(_, _, _, _, _, _, _, _)
Escape(cx, cy, x, y, e, k, n, lo) ==      \* lo: first step at which it may have escaped, or -1
  IF k = n THEN <<IF lo < 0 THEN n ELSE lo, n>>
  ELSE LET m == RSqrt(RSq(x) \oplus RSq(y)) IN
       IF RLe(RR(2) \oplus e, m) THEN <<IF lo < 0 THEN k ELSE lo, k>>
       ELSE LET l2 == IF lo >= 0 THEN lo ELSE IF RLt(m, RR(2) \ominus e) THEN -1 ELSE k IN
            IF RLt(RR(4), e) THEN <<IF l2 < 0 THEN k ELSE l2, n>>
            ELSE Escape(cx, cy, Q((RSq(x) \ominus RSq(y)) \oplus cx), Q((RR(2) \otimes x \otimes y) \oplus cy),
                        Q((RR(2) \otimes m \otimes e) \oplus RSq(e) \oplus R20), k + 1, n, l2)
MandelC(i, n, min) == RR(min) \oplus (RDiv(RR(n - i), RR(n)) \otimes RR(3))
MandelRange(x, y, w, h, n) == LET cx == MandelC(x, w, "-21/10") cy == MandelC(y, h, "-3/2") IN Escape(cx, cy, cx, cy, R20, 0, n, -1)
MandelbrotPost(w, h, n, o) ==
  /\ IShape(o, w, h, 4) /\ IWellFormed(o)
  /\ \A x \in 0 .. w - 1 : \A y \in 0 .. h - 1 :
       LET a == IAt(o, x, y, 0) r == MandelRange(x, y, w, h, n) IN
       /\ o.d[a] \in r[1] .. r[2] /\ o.d[a + 1] = o.d[a] /\ o.d[a + 2] = o.d[a]
=============================================================================
