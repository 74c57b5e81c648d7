------------------------------ MODULE RenderMC ------------------------------
(* Every sequence of drawing operations of a small scene, up to a depth,      *)
(* drawn by an exact point-sampling renderer with a depth buffer (ref) and    *)
(* followed by the specification (r): what the exact renderer shows is always *)
(* allowed, the specified bounds contain its depths, and the image only       *)
(* depends on what was drawn since the last clear, not on the order.  Every   *)
(* history is printed to be replayed on the implementation.                   *)
EXTENDS Render, FiniteSetsExt
CONSTANTS Depth, Emit
VARIABLES r, ref, drawn, cam, hist, n
TS(x) == ToString(x)
W == 11
H == 9
Cams == << [t |-> "0 0 0 10 0 0 0 20", c |-> Camera(P3(0, 0, 0), RR(10), Zero, Zero, Zero, RR(20))],
           [t |-> "1 -1 1 14 -35 20 -30 25", c |-> Camera(P3(1, -1, 1), RR(14), RR(-35), RR(20), RR(-30), RR(25))] >>
\* [a, b, c: world points, k: colour, two]
T(a, b, c, k, two) == [p |-> <<a, b, c>>, k |-> k, two |-> two]
Tris == << T(<<-3, -3, 0>>, <<-1, 3, 0>>, <<3, -2, 0>>, 255, FALSE),            \* facing, in the middle
           T(<<-4, -1, -5>>, <<0, 2, -5>>, <<1, -2, -5>>, 65280, FALSE),        \* nearer, over the left border
           T(<<-7, -7, 4>>, <<0, 12, 2>>, <<8, -7, 1>>, 16711680, FALSE),      \* far, everywhere
           T(<<-3, -3, 1>>, <<3, -2, 1>>, <<-1, 3, -2>>, 1193046, FALSE),       \* seen from the back
           T(<<-2, -3, -2>>, <<3, -3, 1>>, <<-1, 3, -4>>, 10597059, TRUE),      \* from the back, both sides
           T(<<-3, -3, -60>>, <<-1, 3, -60>>, <<3, -2, -60>>, 7, FALSE),        \* behind the camera
           T(<<10, -3, 1>>, <<11, 3, 1>>, <<12, -2, 1>>, 9, FALSE) >>           \* off screen
Lines == << [p |-> <<<<-4, -4, -2>>, <<4, 3, 1>>>>, k |-> 5], [p |-> <<<<-3, 2, -6>>, <<-3, -9, -6>>>>, k |-> 6] >>
World(q) == P3(q[1], q[2], q[3])
Pixels == 1 .. W * H
PX(i) == (i - 1) % W
PY(i) == (i - 1) \div W
R1 == [NewRenderer(W, H) EXCEPT !.cam = Cams[1].c, !.lights = << [k |-> "amb", c |-> 16777215, f |-> RR("256/255")] >>]
Init == /\ r = R1 /\ ref = [i \in Pixels |-> [c |-> 0, w |-> Zero]] /\ drawn = {} /\ cam = 1 /\ n = 0
        /\ hist = "r_new R " \o TS(W) \o " " \o TS(H) \o ";r_cam R " \o Cams[1].t \o ";r_amb R 16777215 0x1.0101010101010p+0;"
Log(s) == hist' = hist \o s \o ";" /\ n' = n + 1

\* ------------------------------------------------- the exact renderer
Facing(t) == LET p == World(t.p[1])
                 nn == Cross(VSub(World(t.p[2]), p), VSub(World(t.p[3]), p))
                 c == Cams[cam].c
                 look == <<c.m[1][3], c.m[2][3], c.m[3][3]>>
                 eye == VSub(c.o, VScale(c.ahead, look)) IN
             RLt(Zero, Dot(nn, VSub(eye, p)))
Inside(A, B, C, i) ==
  LET e(P, S) == ((S.x \ominus P.x) \otimes (RR(PY(i)) \ominus P.y)) \ominus ((S.y \ominus P.y) \otimes (RR(PX(i)) \ominus P.x))
      u == e(A, B) v == e(B, C) w == e(C, A) IN
  (RLe(Zero, u) /\ RLe(Zero, v) /\ RLe(Zero, w)) \/ (RLe(u, Zero) /\ RLe(v, Zero) /\ RLe(w, Zero))
DepthAt(A, B, C, i) ==
  LET cr == CrossOf(A, B, C)
      P  == [x |-> RR(PX(i)), y |-> RR(PY(i))]
      b  == RDiv(CrossOf(A, P, C), cr)
      c  == RDiv(CrossOf(A, B, P), cr) IN
  (A.w \oplus (b \otimes (B.w \ominus A.w))) \oplus (c \otimes (C.w \ominus A.w))
\* pixels and depths a triangle covers
Covered(t) ==
  LET A == Project(r, World(t.p[1])) B == Project(r, World(t.p[2])) C == Project(r, World(t.p[3])) IN
  IF Behind(A) \/ (~t.two /\ ~Facing(t)) THEN {} ELSE {<<i, DepthAt(A, B, C, i)>> : i \in {j \in Pixels : Inside(A, B, C, j)}}
Paint(im, S, k) == [i \in Pixels |-> IF \E s \in S : s[1] = i /\ RLt(im[i].w, s[2])
                                     THEN [c |-> k, w |-> (CHOOSE s \in S : s[1] = i)[2]] ELSE im[i]]
RNear(x) == RFloor(x \oplus RHalf)
\* the pixels of a line, stepping along its longer direction
Stepped(t) ==
  LET A == Project(r, World(t.p[1])) B == Project(r, World(t.p[2]))
      x1 == RNear(A.x) y1 == RNear(A.y) dx == RNear(B.x) - x1 dy == RNear(B.y) - y1
      abs(v) == IF v < 0 THEN -v ELSE v
      im == Max2(abs(dx), abs(dy))
      at(j) == << RNear(RR(x1) \oplus RDiv(RR(dx * j), RR(im))), RNear(RR(y1) \oplus RDiv(RR(dy * j), RR(im))) >>
      wd(j) == A.w \oplus ((B.w \ominus A.w) \otimes RDiv(RR(j), RR(im))) IN
  IF Behind(A) THEN {} ELSE {<<at(j)[2] * W + at(j)[1] + 1, wd(j)>> : j \in {k \in 0 .. im - 1 : at(k)[1] \in 0 .. W - 1 /\ at(k)[2] \in 0 .. H - 1}}

PT(q) == TS(q[1]) \o " " \o TS(q[2]) \o " " \o TS(q[3])
Image(im) == [i \in Pixels |-> im[i].c]
Show(S, im) == /\ Assert(Displays(S, Image(im)), <<"not allowed", hist, im>>)
               /\ ref' = im /\ r' = Observe(r, S, Image(im))
\* drawn: what the image must show the nearest of, as <<pixel, depth, colour>>; "line" marks order-dependent ties
Next == /\ n < Depth
        /\ \/ \E i \in DOMAIN Tris : LET t == Tris[i]
                                         K == Covered(t) IN
                 /\ Show(TriAlts(r, Alts(r), World(t.p[1]), World(t.p[2]), World(t.p[3]), t.two, {t.k}), Paint(ref, K, t.k))
                 /\ Assert(TriSeen(r, World(t.p[1]), World(t.p[2]), World(t.p[3]), t.two, Facing(t) \/ t.two), <<"visibility", t, cam>>)
                 /\ drawn' = drawn \cup {<<q[1], q[2], t.k>> : q \in K}
                 /\ Log("r_tri R " \o PT(t.p[1]) \o " " \o PT(t.p[2]) \o " " \o PT(t.p[3]) \o " " \o TS(t.k) \o (IF t.two THEN " 1" ELSE " 0"))
                 /\ cam' = cam
           \/ \E i \in DOMAIN Lines : LET t == Lines[i]
                                          K == Stepped(t)
                                          im == Paint(ref, K, t.k) IN
                 /\ Show(LineAlts(r, Alts(r), World(t.p[1]), World(t.p[2]), t.k), im)
                 /\ Assert(LineUnbroken(r, Alts(r), Image(im), World(t.p[1]), World(t.p[2]), t.k), <<"gap", hist, t>>)
                 /\ drawn' = drawn \cup {<<q[1], q[2], t.k>> : q \in K}
                 /\ Log("r_line R " \o PT(t.p[1]) \o " " \o PT(t.p[2]) \o " " \o TS(t.k))
                 /\ cam' = cam
           \/ /\ ref' = [i \in Pixels |-> [c |-> r.bg, w |-> Zero]] /\ r' = Blank(r) /\ drawn' = {} /\ cam' = cam /\ Log("r_clear R")
           \/ r.bg = 0 /\ r' = [r EXCEPT !.bg = 1122867] /\ UNCHANGED <<ref, drawn, cam>> /\ Log("r_bg R 1122867")
           \/ cam' = 3 - cam /\ r' = [r EXCEPT !.cam = Cams[3 - cam].c] /\ UNCHANGED <<ref, drawn>> /\ Log("r_cam R " \o Cams[3 - cam].t)
Spec == Init /\ [][Next]_<<r, ref, drawn, cam, hist, n>>
View == <<r, ref, drawn, cam, n>>
Sound == \A i \in Pixels : r.d[i] = ref[i].c /\ RLe(r.z[i][1], ref[i].w) /\ RLe(ref[i].w, r.z[i][2])
\* the nearest of everything drawn since the last clear, whatever the order
Nearest == \A i \in Pixels : LET K == {q \in drawn : q[1] = i} IN
             IF K = {} THEN REq(ref[i].w, Zero)
             ELSE \A q \in K : RLe(q[2], ref[i].w) /\ (REq(q[2], ref[i].w) => \E s \in K : REq(s[2], ref[i].w) /\ s[3] = ref[i].c)
EmitAll == (Emit /\ n' = Depth) => PrintT("@@" \o hist')
\* light: ambient does not depend on the orientation, directional follows the cosine, both saturate
Amb(c, f) == [k |-> "amb", c |-> c, f |-> RR(f)]
Dif(c, f, d) == [k |-> "dif", c |-> c, f |-> RR(f), dir |-> d]
Up == P3(0, 0, 1)
Tilt == <<RR("3/5"), Zero, RR("4/5")>>
ASSUME Lit(16777215, <<>>, Up) = {0}
ASSUME Lit(65793 * 128, <<Amb(65793 * 128, 1)>>, Up) = {65793 * 64}
ASSUME Lit(65793 * 128, <<Dif(65793 * 128, 1, Up)>>, Tilt) = {65793 * 51}
ASSUME Lit(65793 * 128, <<Dif(65793 * 128, 1, Up)>>, VNeg(Tilt)) = {0}
ASSUME Lit(65793 * 200, <<Amb(65793 * 255, 1), Dif(65793 * 255, 1, Up)>>, Up) = {65793 * 255}
ASSUME Lit(65536 * 200 + 100, <<Amb(256 * 255 + 255, 1)>>, Up) = {100}
=============================================================================
