-------------------------------- MODULE Mesh --------------------------------
(* Abstract meshes: a value [c |-> colour, v |-> sequence of points,         *)
(* t |-> sequence of triangle slots].  A slot is <<a, b, c>> (0-based vertex *)
(* identifiers, counter-clockwise seen from outside) or <<>> once removed.   *)
(* Triangle identifier i is slot t[i+1].  Every public edit is an operator   *)
(* giving its canonical outcome(s); Equiv states what is left free.          *)
EXTENDS Vec

EmptyMesh == [c |-> -1, v |-> <<>>, t |-> <<>>]
Live(m)   == {i \in DOMAIN m.t : m.t[i] # <<>>}
LiveSeq(m) == SelectSeq(m.t, LAMBDA x : x # <<>>)
NV(m) == Len(m.v)
NT(m) == Len(m.t)
ValidV(m, i) == i \in 0 .. NV(m) - 1
ValidT(m, i) == i \in 0 .. NT(m) - 1
LiveT(m, i)  == ValidT(m, i) /\ m.t[i + 1] # <<>>
Pos(m, i) == m.v[i + 1]
Tri(m, i) == LET x == m.t[i + 1] IN <<Pos(m, x[1]), Pos(m, x[2]), Pos(m, x[3])>>

WellFormed(m) ==
  /\ \A i \in DOMAIN m.v : IsPoint(m.v[i])
  /\ \A i \in DOMAIN m.t : m.t[i] = <<>> \/ (Len(m.t[i]) = 3 /\ \A k \in 1 .. 3 : ValidV(m, m.t[i][k]))

\* ------------------------------------------------------------- the edits
Kill(ts, i)      == [ts EXCEPT ![i + 1] = <<>>]
AddVertex(m, p)  == [m EXCEPT !.v = Append(@, p)]
AddVertices(m, ps) == [m EXCEPT !.v = @ \o ps]
SetVertex(m, i, p) == [m EXCEPT !.v[i + 1] = p]
AddTri(m, a, b, c) == [m EXCEPT !.t = Append(@, <<a, b, c>>)]
AddTris(m, s)    == [m EXCEPT !.t = @ \o s]
Unlink(m, i)     == [m EXCEPT !.t = Kill(@, i)]
Clear(m)         == [m EXCEPT !.v = <<>>, !.t = <<>>]
SetColor(m, c)   == [m EXCEPT !.c = c]

\* one triangle replaced by the three triangles joining its edges to vertex w
SplitAt(m, i, w) ==
  LET x == m.t[i + 1] IN
  [m EXCEPT !.t = Kill(@, i) \o << <<x[1], x[2], w>>, <<x[2], x[3], w>>, <<x[3], x[1], w>> >>]

\* the corners of triangle i starting at corner a, if directed edge a -> b is one of its edges
HasEdge(m, i, a, b) == LiveT(m, i) /\ LET x == m.t[i + 1] IN
                       \/ (x[1] = a /\ x[2] = b) \/ (x[2] = a /\ x[3] = b) \/ (x[3] = a /\ x[1] = b)
Apex(m, i, a, b) == LET x == m.t[i + 1] IN
                    IF x[1] = a /\ x[2] = b THEN x[3] ELSE IF x[2] = a /\ x[3] = b THEN x[1] ELSE x[2]

\* the two triangles sharing edge a-b (a -> b in i, b -> a in j) become four around vertex w
SplitEdgeAt(m, i, j, a, b, w) ==
  LET p == Apex(m, i, a, b)
      q == Apex(m, j, b, a) IN
  [m EXCEPT !.t = Kill(Kill(@, i), j) \o << <<a, w, p>>, <<w, b, p>>, <<b, w, q>>, <<w, a, q>> >>]

Flip(m, i) == LET x == m.t[i + 1] IN [m EXCEPT !.t = Append(Kill(@, i), <<x[1], x[3], x[2]>>)]

Area2of(p, q, r) == Norm2(Cross(VSub(q, p), VSub(r, p)))    \* (2 * area)^2
AreaOf(p, q, r)  == RSqrt(Area2of(p, q, r)) \otimes RR("1/2")
QuadA(a, b, c, d) == << <<a, b, c>>, <<c, d, a>> >>
QuadB(a, b, c, d) == << <<b, c, d>>, <<d, a, b>> >>
AreaA(p) == AreaOf(p[1], p[2], p[3]) \oplus AreaOf(p[3], p[4], p[1])
AreaB(p) == AreaOf(p[2], p[3], p[4]) \oplus AreaOf(p[4], p[1], p[2])
\* either diagonal covers the boundary polygon
QuadOutcomes(m, q) == { AddTris(m, QuadA(q[1], q[2], q[3], q[4])), AddTris(m, QuadB(q[1], q[2], q[3], q[4])) }
\* with the least-area diagonal (a relative difference below 1e-9 is a tie)
TieEps == RR("1/1000000000")
QuadPOutcomes(m, p, best) ==
  LET w == AddVertices(m, p)
      n == NV(m)
      a == AddTris(w, QuadA(n, n + 1, n + 2, n + 3))
      b == AddTris(w, QuadB(n, n + 1, n + 2, n + 3))
      sa == AreaA(p)
      sb == AreaB(p)
      tie == TieEps \otimes RMax(sa, sb) IN
  (IF best => RLe(sa, sb \oplus tie) THEN {a} ELSE {}) \cup (IF best => RLe(sb, sa \oplus tie) THEN {b} ELSE {})

\* all triangulations of a pentagon: three ears ... five fans, and all have that form
Fan(q, k) == LET x(j) == q[((k + j - 1) % 5) + 1] IN
             << <<x(0), x(1), x(2)>>, <<x(0), x(2), x(3)>>, <<x(0), x(3), x(4)>> >>
PentagonOutcomes(m, q) == { AddTris(m, Fan(q, k)) : k \in 1 .. 5 }

\* a copy shows the live content; slots of removed triangles may or may not be kept
SameLive(m, n) == m.v = n.v /\ LiveSeq(m) = LiveSeq(n)
Compact(m) == [m EXCEPT !.t = LiveSeq(m)]
Shift(s, k) == [i \in DOMAIN s |-> IF s[i] = <<>> THEN <<>> ELSE <<s[i][1] + k, s[i][2] + k, s[i][3] + k>>]
AppendMesh(m, f) == [m EXCEPT !.v = @ \o f.v, !.t = @ \o Shift(LiveSeq(f), NV(m))]

\* ---------------------------------------------------- equality up to what is free
\* rotate the smallest corner first
Norm3(x) == IF x = <<>> THEN x
            ELSE LET LeastOf(y, z) == IF y[1] < z[1] \/ (y[1] = z[1] /\ (y[2] < z[2] \/ (y[2] = z[2] /\ y[3] <= z[3]))) THEN y ELSE z IN
                 LeastOf(x, LeastOf(<<x[2], x[3], x[1]>>, <<x[3], x[1], x[2]>>))
NormSeq(s) == [i \in DOMAIN s |-> Norm3(s[i])]
\* same, except that the triangles after the first k slots may come in any order and rotation
Equiv(o, s, k) ==
  /\ o.c = s.c
  /\ o.v = s.v
  /\ Len(o.t) = Len(s.t)
  /\ SubSeq(o.t, 1, k) = SubSeq(s.t, 1, k)
  /\ SameBag(NormSeq(SubSeq(o.t, k + 1, Len(o.t))), NormSeq(SubSeq(s.t, k + 1, Len(s.t))))

\* ------------------------------------------------------------- geometry of meshes
Edges(x) == << <<x[1], x[2]>>, <<x[2], x[3]>>, <<x[3], x[1]>> >>
\* directed edges of the live triangles as a function (i, k) -> edge
EdgeIx(m) == Live(m) \X (1 .. 3)
EdgeAt(m, e) == Edges(m.t[e[1]])[e[2]]
\* directed edge multiplicity
Mult(m, a, b) == Cardinality({e \in EdgeIx(m) : EdgeAt(m, e) = <<a, b>>})
UsedEdges(m) == {EdgeAt(m, e) : e \in EdgeIx(m)}
\* closed and consistently oriented: every directed edge is matched by its reverse
Closed(m) == \A e \in UsedEdges(m) : Mult(m, e[1], e[2]) = Mult(m, e[2], e[1])
Manifold(m) == \A e \in UsedEdges(m) : Mult(m, e[1], e[2]) = 1 /\ Mult(m, e[2], e[1]) = 1
\* the net boundary: directed edges minus reversed ones
Boundary(m) == {<<e, Mult(m, e[1], e[2]) - Mult(m, e[2], e[1])>> : e \in {f \in UsedEdges(m) : Mult(m, f[1], f[2]) > Mult(m, f[2], f[1])}}

SixVolume(m) == LET s == LiveSeq(m)
                    F(i) == Det(Pos(m, s[i][1]), Pos(m, s[i][2]), Pos(m, s[i][3]))
                IN SumF(F, 1, Len(s))
SurfaceOf(m) == LET s == LiveSeq(m)
                    F(i) == AreaOf(Pos(m, s[i][1]), Pos(m, s[i][2]), Pos(m, s[i][3]))
                IN SumF(F, 1, Len(s))
\* area vector of the live surface
AreaVec(m) == LET s == LiveSeq(m)
                  F(i) == LET p == Pos(m, s[i][1]) q == Pos(m, s[i][2]) r == Pos(m, s[i][3]) IN Cross(VSub(q, p), VSub(r, p))
              IN VSumF(F, 1, Len(s))
=============================================================================
