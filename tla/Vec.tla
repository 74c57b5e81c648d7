-------------------------------- MODULE Vec --------------------------------
(* Points and vectors <<x, y, z>> of exact rationals. *)
EXTENDS Rat, Integers, Sequences, FiniteSets

Zero == RR(0)
One  == RR(1)
P3(x, y, z) == <<RR(x), RR(y), RR(z)>>
IsPoint(p)  == Len(p) = 3 /\ RIsNum(p[1]) /\ RIsNum(p[2]) /\ RIsNum(p[3])

VAdd(a, b)   == <<a[1] \oplus b[1], a[2] \oplus b[2], a[3] \oplus b[3]>>
VSub(a, b)   == <<a[1] \ominus b[1], a[2] \ominus b[2], a[3] \ominus b[3]>>
VScale(k, a) == <<k \otimes a[1], k \otimes a[2], k \otimes a[3]>>
VNeg(a)      == <<RNeg(a[1]), RNeg(a[2]), RNeg(a[3])>>
Dot(a, b)    == (a[1] \otimes b[1]) \oplus (a[2] \otimes b[2]) \oplus (a[3] \otimes b[3])
Cross(a, b)  == << (a[2] \otimes b[3]) \ominus (a[3] \otimes b[2]),
                   (a[3] \otimes b[1]) \ominus (a[1] \otimes b[3]),
                   (a[1] \otimes b[2]) \ominus (a[2] \otimes b[1]) >>
Norm2(a)     == Dot(a, a)
Dist2(a, b)  == Norm2(VSub(a, b))
Det(a, b, c) == Dot(a, Cross(b, c))

RMax(a, b) == IF RLt(a, b) THEN b ELSE a
RMin(a, b) == IF RLt(a, b) THEN a ELSE b
RSq(a)     == a \otimes a
RPow2(k)   == IF k >= 0 THEN RR(2^k) ELSE RDiv(One, RR(2^(-k)))

\* |a - b| <= eps
Near(a, b, eps)  == RLe(RAbs(a \ominus b), eps)
\* |a - b| <= eps * max(1, |b|)
NearRel(a, b, eps) == RLe(RAbs(a \ominus b), eps \otimes RMax(One, RAbs(b)))
PNear(p, q, eps) == Len(p) = 3 /\ Near(p[1], q[1], eps) /\ Near(p[2], q[2], eps) /\ Near(p[3], q[3], eps)
PMax(p)          == RMax(RMax(RAbs(p[1]), RAbs(p[2])), RAbs(p[3]))
PNearRel(p, q, eps) == PNear(p, q, eps \otimes RMax(One, PMax(q)))

\* sums and extrema over finite sets / sequences, by recursion on an interval
RECURSIVE SumF(_, _, _)
SumF(F(_), lo, hi) == IF lo > hi THEN Zero
                      ELSE IF lo = hi THEN F(lo)
                      ELSE LET mid == (lo + hi) \div 2 IN SumF(F, lo, mid) \oplus SumF(F, mid + 1, hi)
RECURSIVE VSumF(_, _, _)
VSumF(F(_), lo, hi) == IF lo > hi THEN <<Zero, Zero, Zero>>
                       ELSE IF lo = hi THEN F(lo)
                       ELSE LET mid == (lo + hi) \div 2 IN VAdd(VSumF(F, lo, mid), VSumF(F, mid + 1, hi))
RECURSIVE MaxF(_, _, _)
MaxF(F(_), lo, hi) == IF lo = hi THEN F(lo)
                      ELSE LET mid == (lo + hi) \div 2 IN RMax(MaxF(F, lo, mid), MaxF(F, mid + 1, hi))

Range(s) == {s[i] : i \in DOMAIN s}
\* number of occurrences
Count(s, x) == Cardinality({i \in DOMAIN s : s[i] = x})
SameBag(s, t) == Len(s) = Len(t) /\ (s = t \/ \A x \in Range(s) \cup Range(t) : Count(s, x) = Count(t, x))
=============================================================================
