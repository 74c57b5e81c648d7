------------------------------- MODULE Xform -------------------------------
(* Point transforms by their mathematical definition; angles in degrees.     *)
EXTENDS Vec

\* rotation of p about the unit axis by the angle with cosine c and sine s (Rodrigues)
RotAA(p, axis, c, s) ==
  LET k == Dot(axis, p) \otimes (One \ominus c) IN
  VAdd(VAdd(VScale(c, p), VScale(s, Cross(axis, p))), VScale(k, axis))
RotAngle(p, deg, axis) == RotAA(p, axis, RCosDeg(deg), RSinDeg(deg))

\* rotation by the unit quaternion q = <<w, x, y, z>>:  q p q*
RotQ(p, q) ==
  LET u == <<q[2], q[3], q[4]>>
      t == VScale(RR(2), Cross(u, p)) IN
  VAdd(VAdd(p, VScale(q[1], t)), Cross(u, t))

\* row-major 3x3 matrix times column vector
MulM(m, p) == << Dot(<<m[1], m[2], m[3]>>, p), Dot(<<m[4], m[5], m[6]>>, p), Dot(<<m[7], m[8], m[9]>>, p) >>

\* camera angles: yaw about y, pitch about x seen with y pointing down, roll about z
Euler(p, a) ==
  LET cy == RCosDeg(a[1]) sy == RSinDeg(a[1])
      cp == RCosDeg(a[2]) sp == RSinDeg(a[2])
      cr == RCosDeg(a[3]) sr == RSinDeg(a[3])
      x1 == (p[1] \otimes cy) \oplus (p[3] \otimes sy)
      z1 == (p[3] \otimes cy) \ominus (p[1] \otimes sy)
      y2 == (z1 \otimes sp) \ominus (p[2] \otimes cp)
      z2 == (z1 \otimes cp) \oplus (p[2] \otimes sp)
      x3 == (x1 \otimes cr) \oplus (y2 \otimes sr)
      y3 == (y2 \otimes cr) \ominus (x1 \otimes sr)
  IN <<x3, y3, z2>>

IdM == <<One, Zero, Zero, Zero, One, Zero, Zero, Zero, One>>
AxisOf(a) == <<a[2], a[3], a[4]>>
IsRotation(k) == k \notin {"translation", "scale", "scale_default", "mat", "mat_set"}
\* the point p is moved to by transform kind k with parameters a
Apply(k, a, p) ==
  CASE k = "translation" -> VAdd(p, a)
    [] k = "scale" -> <<a[1] \otimes p[1], a[2] \otimes p[2], a[3] \otimes p[3]>>
    [] k \in {"euler", "euler_set"} -> Euler(p, a)
    [] k \in {"quat", "quat_set"} -> RotQ(p, a)
    [] k \in {"mat", "mat_set"} -> MulM(a, p)
    [] k \in {"quat_aa", "mat_aa", "aa", "aa_set", "aa_from"} -> RotAngle(p, a[1], AxisOf(a))
    [] k \in {"scale_default", "quat_default", "mat_default", "aa_default"} -> p
XEps == RR("1/1000000000")
\* the coordinates q the implementation gives for p agree with the definition
Moved(k, a, p, q) ==
  LET e == Apply(k, a, p)
      s == RMax(One, RMax(PMax(e), RMax(PMax(p), MaxF(LAMBDA i : RAbs(a[i]), 1, Len(a)))))
  IN PNear(q, e, XEps \otimes s)
MovedAll(k, a, ps, qs) == Len(ps) = Len(qs) /\ \A i \in DOMAIN ps : Moved(k, a, ps[i], qs[i])
=============================================================================
