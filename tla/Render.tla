------------------------------- MODULE Render -------------------------------
(* The software renderer: a camera projects world points to image positions   *)
(* and inverse depths, triangles are filled, nearer ones hide farther ones.   *)
(*                                                                            *)
(* Where a pixel falls relative to an edge is only specified up to a margin   *)
(* (positions are rounded to whole pixels), so the state of a pixel is a set  *)
(* of alternatives [c |-> colour, lo, hi |-> bounds of the inverse depth its  *)
(* nearest surface has].  Drawing maps alternatives to alternatives; looking  *)
(* at the image removes those whose colour is not the one shown.  A pixel not *)
(* showing any alternative is an error.                                       *)
EXTENDS Xform, TLC


RHalf == RR("1/2")
RTrunc(a) == IF RLt(a, Zero) THEN -RFloor(RNeg(a)) ELSE RFloor(a)
RCeil(a) == -RFloor(RNeg(a))
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b

\* ------------------------------------------------------------- the camera
NoCam == <<>>
\* world axes seen by the camera; the camera looks along its third axis
Camera(o, ahead, yaw, pitch, roll, zoom) ==
  [o |-> o, ahead |-> ahead, zoom |-> zoom,
   m |-> LET a == <<yaw, pitch, roll>>
             R(p) == LET q == Euler(p, a) IN <<RRound(q[1], 70), RRound(q[2], 70), RRound(q[3], 70)>>
         IN <<R(<<One, Zero, Zero>>), R(<<Zero, One, Zero>>), R(<<Zero, Zero, One>>)>>]
Local(cam, p) == LET q == VSub(p, cam.o) IN
                 VAdd(VAdd(VAdd(VScale(q[1], cam.m[1]), VScale(q[2], cam.m[2])), VScale(q[3], cam.m[3])), <<Zero, Zero, cam.ahead>>)
\* image position (pixel centres at integers) and inverse depth
Project(r, p) == LET q == Local(r.cam, p)
                     k == RRound(RDiv(One, q[3]), 80) IN
                 [x |-> RRound((q[1] \otimes r.cam.zoom) \otimes k, 10) \oplus RR(r.w \div 2),
                  y |-> RRound((q[2] \otimes r.cam.zoom) \otimes k, 10) \oplus RR(r.h \div 2),
                  w |-> RRound(k, 60)]
Behind(P) == RLt(P.w, Zero)
\* relative accuracy of a stored inverse depth
DepthEps == RR("1/1000000")
LoOf(w) == RRound(w \ominus (DepthEps \otimes RAbs(w)), 60)
HiOf(w) == RRound(w \oplus (DepthEps \otimes RAbs(w)), 60)

\* ---------------------------------------------------- pixels and alternatives
Alt(c, lo, hi) == [c |-> c, lo |-> lo, hi |-> hi]
Hull(S, c) == LET T == {s \in S : s.c = c}
                  a == CHOOSE s \in T : \A t \in T : RLe(s.lo, t.lo)
                  b == CHOOSE s \in T : \A t \in T : RLe(t.hi, s.hi)
              IN Alt(c, a.lo, b.hi)
Merge(S) == IF Cardinality(S) <= 1 THEN S ELSE {Hull(S, c) : c \in {s.c : s \in S}}
\* a surface of colour k (one of ks) at inverse depth in [a, b] covers the pixel: surely (must) or perhaps;
\* tol: how much nearer the stored surface has to be to hide it
Cover(S, must, a, b, tol, ks) ==
  Merge(UNION { (IF RLt(s.lo, b \oplus tol) THEN {Alt(k, RMax(a, s.lo \ominus tol), b) : k \in ks} ELSE {})
                \cup (IF ~must THEN {s} ELSE IF RLe(a, s.hi) THEN {Alt(s.c, RMax(a, s.lo), s.hi)} ELSE {}) : s \in S })

\* ------------------------------------------------------------- triangles
\* distance from an edge, in pixels, within which coverage is not specified
Margin == RR("33/20")
\* a linear function a x + b y + c, positive on the inner side of the directed line P -> Q
EdgeFn(P, R) == LET a == P.y \ominus R.y
                    b == R.x \ominus P.x IN
                [a |-> a, b |-> b, c |-> RNeg((a \otimes P.x) \oplus (b \otimes P.y)),
                 len |-> RRound(RSqrt(RSq(a) \oplus RSq(b)), 12) \oplus RR("1/2048")]
FlipFn(e) == [e EXCEPT !.a = RNeg(@), !.b = RNeg(@), !.c = RNeg(@)]
\* columns x of row y with  e(x, y) >= m * len, cut to lo .. hi
RowSpan(e, m, y, lo, hi) ==
  LET t == ((m \otimes e.len) \ominus e.c) \ominus (e.b \otimes RR(y)) IN
  IF REq(e.a, Zero) THEN (IF RLe(t, Zero) THEN <<lo, hi>> ELSE <<1, 0>>)
  ELSE LET x == RDiv(t, e.a) IN
       IF RLt(Zero, e.a) THEN (IF RLt(RR(hi), x) THEN <<1, 0>> ELSE IF RLt(x, RR(lo)) THEN <<lo, hi>> ELSE <<RCeil(x), hi>>)
       ELSE (IF RLt(x, RR(lo)) THEN <<1, 0>> ELSE IF RLt(RR(hi), x) THEN <<lo, hi>> ELSE <<lo, RFloor(x)>>)
Meet(s, t) == IF s[1] > s[2] \/ t[1] > t[2] THEN <<1, 0>> ELSE <<Max2(s[1], t[1]), Min2(s[2], t[2])>>
Within(x, s) == s[1] <= x /\ x <= s[2]

CrossOf(A, B, C) == ((B.x \ominus A.x) \otimes (C.y \ominus A.y)) \ominus ((B.y \ominus A.y) \otimes (C.x \ominus A.x))
MaxLen(E) == RMax(E[1].len, RMax(E[2].len, E[3].len))
Clip(x, lo, hi) == IF RLt(x, RR(lo)) THEN lo ELSE IF RLt(RR(hi), x) THEN hi ELSE RFloor(x)

\* everything drawing needs to know about a projected triangle
Fill(r, A, B, C) ==
  LET E0   == <<EdgeFn(A, B), EdgeFn(B, C), EdgeFn(C, A)>>
      cr   == CrossOf(A, B, C)
      E    == IF RLt(cr, Zero) THEN <<FlipFn(E0[1]), FlipFn(E0[2]), FlipFn(E0[3])>> ELSE E0
      m    == Margin
      e    == RR("3/2")                                        \* twice the displacement of a corner
      sure == RLt(e \otimes MaxLen(E), RAbs(cr))               \* orientation survives the rounding
      x0   == Max2(0, Clip(RMin(A.x, RMin(B.x, C.x)) \ominus m, -1, r.w))
      x1   == Min2(r.w - 1, Clip(RMax(A.x, RMax(B.x, C.x)) \oplus m, -1, r.w))
      y0   == Max2(0, Clip(RMin(A.y, RMin(B.y, C.y)) \ominus m, -1, r.h))
      y1   == Min2(r.h - 1, Clip(RMax(A.y, RMax(B.y, C.y)) \oplus m, -1, r.h))
      flat == REq(cr, Zero)
      nm   == RNeg(m)
      \* rows: <<columns surely covered, columns perhaps covered>>
      rows == [y \in 0 .. r.h - 1 |->
                IF y < y0 \/ y > y1 THEN <<<<1, 0>>, <<1, 0>>>>
                ELSE LET all == <<x0, x1>> IN
                     << IF flat THEN <<1, 0>> ELSE Meet(RowSpan(E[1], m, y, x0, x1), Meet(RowSpan(E[2], m, y, x0, x1), RowSpan(E[3], m, y, x0, x1))),
                        IF flat THEN all ELSE Meet(RowSpan(E[1], nm, y, x0, x1), Meet(RowSpan(E[2], nm, y, x0, x1), RowSpan(E[3], nm, y, x0, x1))) >>]
      wmin == RMin(A.w, RMin(B.w, C.w))
      wmax == RMax(A.w, RMax(B.w, C.w))
      \* inverse depth is affine in the image
      gx   == RRound(RDiv(((B.w \ominus A.w) \otimes (C.y \ominus A.y)) \ominus ((C.w \ominus A.w) \otimes (B.y \ominus A.y)), cr), 60)
      gy   == RRound(RDiv(((C.w \ominus A.w) \otimes (B.x \ominus A.x)) \ominus ((B.w \ominus A.w) \otimes (C.x \ominus A.x)), cr), 60)
      sl   == RR("7/4") \otimes RRound(RSqrt(RSq(gx) \oplus RSq(gy)) \oplus RPow2(-30), 40)
  IN [front |-> IF ~sure THEN "maybe" ELSE IF RLt(Zero, cr) THEN "yes" ELSE "no",
      sure |-> sure, rows |-> TLCEval(rows), at |-> A, wmin |-> wmin, wmax |-> wmax,
      grad |-> IF sure THEN <<gx, gy, sl>> ELSE <<>>]
\* bounds of the inverse depth at a pixel
BoundsAt(F, x, y) ==
  IF ~F.sure THEN <<LoOf(F.wmin), HiOf(F.wmax)>>
  ELSE LET g == F.grad
           w == (F.at.w \oplus (g[1] \otimes (RR(x) \ominus F.at.x))) \oplus (g[2] \otimes (RR(y) \ominus F.at.y)) IN
       << LoOf(RMin(F.wmax, RMax(F.wmin, w \ominus g[3]))), HiOf(RMax(F.wmin, RMin(F.wmax, w \oplus g[3]))) >>
SomeSure(F) == \E y \in DOMAIN F.rows : F.rows[y][1][1] <= F.rows[y][1][2]

\* alternatives of the whole image after a triangle; S: pixel number -> alternatives
NoTol == Zero
FillAlts(r, S, F, must, ks) ==
  TLCEval([i \in DOMAIN S |->
    LET x == (i - 1) % r.w
        y == (i - 1) \div r.w
        row == F.rows[y] IN
    IF ~Within(x, row[2]) THEN S[i]
    ELSE LET b == BoundsAt(F, x, y) IN Cover(S[i], must /\ Within(x, row[1]), b[1], b[2], NoTol, ks)])

\* the triangle pa, pb, pc drawn in colour(s) ks
TriAlts(r, S, pa, pb, pc, two, ks) ==
  LET A == Project(r, pa) B == Project(r, pb) C == Project(r, pc) IN
  IF Behind(A) /\ Behind(B) /\ Behind(C) THEN S
  ELSE LET F == Fill(r, A, B, C) IN
       IF ~two /\ F.front = "no" THEN S ELSE FillAlts(r, S, F, F.sure, ks)
\* what may be reported about its visibility
TriSeen(r, pa, pb, pc, two, ret) ==
  LET A == Project(r, pa) B == Project(r, pb) C == Project(r, pc)
      F == Fill(r, A, B, C) IN
  \/ Behind(A) /\ Behind(B) /\ Behind(C)
  \/ /\ (~two /\ F.front = "no") => ~ret
     /\ (F.sure /\ (two \/ F.front = "yes") /\ SomeSure(F)) => ret
TriMayShow(r, pa, pb, pc) ==
  LET A == Project(r, pa) B == Project(r, pb) C == Project(r, pc) IN
  ~(Behind(A) /\ Behind(B) /\ Behind(C)) /\ Fill(r, A, B, C).front # "no"

\* ----------------------------------------------------------------- lines
LineMargin == RR("11/5")
LineTol == RR("1/100000")
LineFn(r, A, B) ==
  LET dx == B.x \ominus A.x
      dy == B.y \ominus A.y
      l2 == RSq(dx) \oplus RSq(dy)
      m  == LineMargin IN
  [a |-> A, b |-> B, dx |-> dx, dy |-> dy, l2 |-> l2, len |-> RRound(RSqrt(l2), 20) \oplus RPow2(-16), m |-> m,
   x0 |-> Clip(RMin(A.x, B.x) \ominus m, -1, r.w), x1 |-> Clip(RMax(A.x, B.x) \oplus m, -1, r.w),
   y0 |-> Clip(RMin(A.y, B.y) \ominus m, -1, r.h), y1 |-> Clip(RMax(A.y, B.y) \oplus m, -1, r.h)]
OnLine(L, x, y) ==
  /\ L.x0 <= x /\ x <= L.x1 /\ L.y0 <= y /\ y <= L.y1
  /\ LET ux == RR(x) \ominus L.a.x
         uy == RR(y) \ominus L.a.y IN
     /\ RLe(RAbs((ux \otimes L.dy) \ominus (uy \otimes L.dx)), L.m \otimes L.len)
\* inverse depth at the pixel's place along the line
LineBounds(L, x, y) ==
  LET wmin == RMin(L.a.w, L.b.w)
      wmax == RMax(L.a.w, L.b.w) IN
  IF RLt(L.l2, RR(16)) THEN <<LoOf(wmin), HiOf(wmax)>>
  ELSE LET t  == RRound(RDiv(((RR(x) \ominus L.a.x) \otimes L.dx) \oplus ((RR(y) \ominus L.a.y) \otimes L.dy), L.l2), 40)
           s  == RRound(RDiv(RR(5), L.len), 30)
           dw == L.b.w \ominus L.a.w
           p  == L.a.w \oplus (dw \otimes (t \ominus s))
           q  == L.a.w \oplus (dw \otimes (t \oplus s)) IN
       << LoOf(RMin(wmax, RMax(wmin, RMin(p, q)))), HiOf(RMax(wmin, RMin(wmax, RMax(p, q)))) >>
\* a line may leave out any single pixel (see LineUnbroken for what it may not leave out)
LineAlts(r, S, pa, pb, c) ==
  LET A == Project(r, pa) B == Project(r, pb) IN
  IF Behind(A) /\ Behind(B) THEN S
  ELSE LET L == LineFn(r, A, B) IN
       TLCEval([i \in DOMAIN S |->
         LET x == (i - 1) % r.w
             y == (i - 1) \div r.w IN
         IF ~OnLine(L, x, y) THEN S[i]
         ELSE LET b == LineBounds(L, x, y) IN Cover(S[i], FALSE, b[1], b[2], LineTol, {c})])
\* along its longer direction a line has no gap where nothing nearer hides it; S: alternatives before, d: the image after
LineUnbroken(r, S, d, pa, pb, c) ==
  LET A == Project(r, pa) B == Project(r, pb) L == LineFn(r, A, B)
      steep == RLt(RAbs(L.dx), RAbs(L.dy))
      lo == IF steep THEN RMin(A.y, B.y) ELSE RMin(A.x, B.x)
      hi == IF steep THEN RMax(A.y, B.y) ELSE RMax(A.x, B.x)
      n  == IF steep THEN r.h ELSE r.w IN
  (Behind(A) /\ Behind(B)) \/
  \A k \in 0 .. n - 1 :
    (RLe(lo \oplus L.m, RR(k)) /\ RLe(RR(k), hi \ominus L.m)) =>
      LET cand == {q \in IF steep THEN {<<x, k>> : x \in -4 .. r.w + 4} ELSE {<<k, y>> : y \in -4 .. r.h + 4} :
                     RLe(RAbs(((RR(q[1]) \ominus A.x) \otimes L.dy) \ominus ((RR(q[2]) \ominus A.y) \otimes L.dx)), L.m \otimes L.len)}
          inside == \A q \in cand : q[1] \in 0 .. r.w - 1 /\ q[2] \in 0 .. r.h - 1
          at(q) == q[2] * r.w + q[1] + 1 IN
      (inside /\ cand # {} /\ \A q \in cand : \A s \in S[at(q)] : RLt(s.hi, LineBounds(L, q[1], q[2])[1] \oplus RR("9/1000000")))
        => \E q \in cand : d[at(q)] = c

\* ---------------------------------------------------------------- points
PointCands(r, A) ==
  LET ok(u, v) == RLe(RAbs(RR(u) \ominus v), RR("51/100"))
      near(v, n) == LET f == Clip(v, -3, n + 3) IN {u \in Max2(0, f - 2) .. Min2(n - 1, f + 2) : ok(u, v)} IN
  near(A.x, r.w) \X near(A.y, r.h)
PointAlts(r, S, pa, c) ==
  LET A == Project(r, pa)
      K == PointCands(r, A) IN
  IF Behind(A) THEN S
  ELSE [i \in DOMAIN S |-> IF <<(i - 1) % r.w, (i - 1) \div r.w>> \in K THEN Cover(S[i], Cardinality(K) = 1 /\ RLt(RR("-49/100"), A.x) /\ RLt(RR("-49/100"), A.y) /\ RLt(A.x, RR(r.w) \ominus RR("51/100")) /\ RLt(A.y, RR(r.h) \ominus RR("51/100")), LoOf(A.w), HiOf(A.w), NoTol, {c}) ELSE S[i]]

\* ---------------------------------------------------------------- lights
Channel(c, k) == (c \div (CASE k = 1 -> 65536 [] k = 2 -> 256 [] k = 3 -> 1)) % 256
UnitNormal(pa, pb, pc) == LET n == Cross(VSub(pb, pa), VSub(pc, pa)) IN VScale(RDiv(One, RSqrt(Norm2(n))), n)
LightOn(g, n) == IF g.k = "amb" THEN g.f ELSE g.f \otimes RMax(Zero, Dot(n, g.dir))
Level(c, lights, k, n) ==
  LET a(i) == (LightOn(lights[i], n) \otimes RR(Channel(lights[i].c, k))) \otimes RR(Channel(c, k)) IN
  IF lights = <<>> THEN Zero ELSE RDiv(SumF(a, 1, Len(lights)), RR(256))
Rounded(v) == LET u == RFloor((v \oplus RHalf) \oplus RR("1/10000000"))
                  d == RFloor((v \oplus RHalf) \ominus RR("1/10000000")) IN {Min2(255, u), Min2(255, d)}
\* colour(s) of a face with normal n
Lit(c, lights, n) == {65536 * x + 256 * y + z : x \in Rounded(RRound(Level(c, lights, 1, n), 60)),
                                                y \in Rounded(RRound(Level(c, lights, 2, n), 60)),
                                                z \in Rounded(RRound(Level(c, lights, 3, n), 60))}
LitFace(c, lights, pa, pb, pc) == Lit(c, lights, IF \E i \in DOMAIN lights : lights[i].k = "dif" THEN UnitNormal(pa, pb, pc) ELSE <<Zero, Zero, Zero>>)

\* ---------------------------------------------------- the renderer's state
Blank(r) == [r EXCEPT !.d = [i \in 1 .. r.w * r.h |-> r.bg], !.z = [i \in 1 .. r.w * r.h |-> <<Zero, Zero>>]]
NewRenderer(w, h) == Blank([w |-> w, h |-> h, bg |-> 0, cam |-> NoCam, lights |-> <<>>, d |-> <<>>, z |-> <<>>])
Alts(r) == TLCEval([i \in 1 .. r.w * r.h |-> {Alt(r.d[i], r.z[i][1], r.z[i][2])}])
\* the image d shows one alternative everywhere
Displays(S, d) == DOMAIN S = DOMAIN d /\ \A i \in DOMAIN d : \E s \in S[i] : s.c = d[i]
Observe(r, S, d) == [r EXCEPT !.d = d, !.z = TLCEval([i \in DOMAIN d |-> LET s == Hull(S[i], d[i]) IN <<s.lo, s.hi>>])]

\* a mesh: its live triangles in order, each followed by its edges if asked for
RECURSIVE MeshAlts(_, _, _, _, _)
MeshAlts(r, S, ts, edges, c) ==
  IF ts = <<>> THEN S
  ELSE LET t == Head(ts)
           S1 == TriAlts(r, S, t[1], t[2], t[3], FALSE, LitFace(c, r.lights, t[1], t[2], t[3]))
           S2 == IF edges /\ TriMayShow(r, t[1], t[2], t[3])
                 THEN LineAlts(r, LineAlts(r, LineAlts(r, S1, t[1], t[2], 0), t[2], t[3], 0), t[3], t[1], 0) ELSE S1
       IN MeshAlts(r, S2, Tail(ts), edges, c)
RECURSIVE PolyAlts(_, _, _, _)
PolyAlts(r, S, v, c) == IF Len(v) < 2 THEN S ELSE PolyAlts(r, LineAlts(r, S, v[1], v[2], c), Tail(v), c)
=============================================================================
