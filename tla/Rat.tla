-------------------------------- MODULE Rat --------------------------------
(* Exact rational arithmetic for TLC.  TLC's integers are 32 bits wide and   *)
(* TLA+'s Reals are not executable, so the operators below are declared here *)
(* and implemented by the TLC module override java/Rat.java on a rational    *)
(* value type.  "#nan" stands for any non-finite number: every comparison    *)
(* with it is FALSE, every operation on it yields it, so a non-finite        *)
(* coordinate coming out of the implementation can satisfy no action.        *)
LOCAL INSTANCE Integers
RR(x)      == CHOOSE r : TRUE   \* number or string ("3", "-3/4", "0x1.8p+1") -> rational
RAdd(a, b) == CHOOSE r : TRUE
RSub(a, b) == CHOOSE r : TRUE
RMul(a, b) == CHOOSE r : TRUE
RDiv(a, b) == CHOOSE r : TRUE   \* exact; division by zero yields #nan
RNeg(a)    == CHOOSE r : TRUE
RAbs(a)    == CHOOSE r : TRUE
RLt(a, b)  == CHOOSE r : TRUE
RLe(a, b)  == CHOOSE r : TRUE
REq(a, b)  == CHOOSE r : TRUE   \* numeric equality of two finite numbers
RIsNum(a)  == CHOOSE r : TRUE   \* is a finite rational
RFloor(a)  == CHOOSE r : TRUE   \* -> TLC integer
RRound(a, k) == CHOOSE r : TRUE \* nearest multiple of 2^-k
RSqrt(a)   == CHOOSE r : TRUE   \* absolute error < 2^-100
RSinDeg(a) == CHOOSE r : TRUE   \* sine and cosine of an angle in degrees, error < 2^-120
RCosDeg(a) == CHOOSE r : TRUE
RPi        == CHOOSE r : TRUE
LoadTrace(file) == CHOOSE r : TRUE \* ndjson file -> sequence of records, "#..." strings -> rationals

a \oplus b   == RAdd(a, b)
a \ominus b  == RSub(a, b)
a \otimes b  == RMul(a, b)
a \oslash b  == RDiv(a, b)
a \prec b    == RLt(a, b)
a \preceq b  == RLe(a, b)
=============================================================================
