----------------------------- MODULE RenderTrace -----------------------------
(* Recorded histories of renderers.                                           *)
EXTENDS Render, MeshTrace
VARIABLE rs     \* every renderer by name
RenderVars == <<rs>>
RenderReset == rs' = [x \in {} |-> 0]
SetR(n, r) == [x \in DOMAIN rs \cup {n} |-> IF x = n THEN r ELSE rs[x]]
R0 == rs[Ev.r]
D1 == Ev.rs[Ev.r].d
\* only the named renderer's image may have changed
Screens(n) ==
  /\ Chk("renderers", DOMAIN Ev.rs = DOMAIN rs \cup {n})
  /\ Chk("image size", \A x \in DOMAIN Ev.rs : Len(Ev.rs[x].d) = Ev.rs[x].w * Ev.rs[x].h)
  /\ Chk("untouched images", \A x \in DOMAIN rs \ {n} : Ev.rs[x].d = rs[x].d)
Becomes(r) == Screens(Ev.r) /\ Chk("image", r.w = Ev.rs[Ev.r].w /\ r.h = Ev.rs[Ev.r].h /\ D1 = r.d) /\ rs' = SetR(Ev.r, r)
Drawn(S) == /\ Screens(Ev.r)
            /\ Chk("image", Displays(S, D1))
            /\ rs' = SetR(Ev.r, Observe(R0, S, D1))
LiveTris(m) == LET s == LiveSeq(m) IN [i \in DOMAIN s |-> <<Pos(m, s[i][1]), Pos(m, s[i][2]), Pos(m, s[i][3])>>]
RenderOnly ==
  \/ Is("r_new") /\ Becomes(NewRenderer(Ev.w, Ev.h))
  \/ Is("r_clear") /\ Becomes(Blank(R0))
  \/ Is("r_bg") /\ Becomes([R0 EXCEPT !.bg = Ev.c])
  \/ Is("r_cam") /\ Becomes([R0 EXCEPT !.cam = Camera(Ev.o, Ev.ahead, Ev.yaw, Ev.pitch, Ev.roll, Ev.zoom)])
  \/ Is("r_amb") /\ Becomes([R0 EXCEPT !.lights = Append(@, [k |-> "amb", c |-> Ev.c, f |-> Ev.f])])
  \/ Is("r_dif") /\ Becomes([R0 EXCEPT !.lights = Append(@, [k |-> "dif", c |-> Ev.c, f |-> Ev.f, dir |-> Ev.dir])])
  \/ /\ Is("r_tri")
     /\ Chk("visibility", TriSeen(R0, Ev.A, Ev.B, Ev.C, Ev.two = 1, Ev.ret))
     /\ Drawn(TriAlts(R0, Alts(R0), Ev.A, Ev.B, Ev.C, Ev.two = 1, LitFace(Ev.c, R0.lights, Ev.A, Ev.B, Ev.C)))
  \/ /\ Is("r_line")
     /\ Drawn(LineAlts(R0, Alts(R0), Ev.A, Ev.B, Ev.c))
     /\ Chk("no gap", LineUnbroken(R0, Alts(R0), D1, Ev.A, Ev.B, Ev.c))
  \/ Is("r_pixel") /\ Drawn(PointAlts(R0, Alts(R0), Ev.A, Ev.c))
  \/ /\ Is("r_poly")
     /\ Drawn(PolyAlts(R0, Alts(R0), Ev.v, Ev.c))
     /\ Chk("no gap", \A i \in 1 .. Len(Ev.v) - 1 : LineUnbroken(R0, Alts(R0), D1, Ev.v[i], Ev.v[i + 1], Ev.c))
  \/ /\ Is("r_twin")       \* two renderers that were shown the same scene
     /\ Chk("same image", Ev.rs[Ev.r].d = Ev.rs[Ev.q].d)
     /\ Becomes(R0)
RenderMesh ==
  /\ Is("r_mesh")
  /\ Frame({Ev.m})
  /\ LET m == Get(Ev.m)
         ts == LiveTris(m)
         c  == IF Ev.c = -1 THEN m.c ELSE Ev.c IN
     /\ Chk("unchanged", After = m)
     /\ Drawn(MeshAlts(R0, Alts(R0), ts, Ev.edges = 1, c))
     /\ Chk("edges", (Ev.edges = 1 /\ Len(ts) = 1) =>
            LET t == ts[1]
                F == Fill(R0, Project(R0, t[1]), Project(R0, t[2]), Project(R0, t[3]))
                S == TriAlts(R0, Alts(R0), t[1], t[2], t[3], FALSE, LitFace(c, R0.lights, t[1], t[2], t[3])) IN
            (F.front = "yes" /\ SomeSure(F) /\ ~Behind(Project(R0, t[1]))) =>
              \A k \in 1 .. 3 : LineUnbroken(R0, S, D1, t[k], t[(k % 3) + 1], 0))
RenderStep == (RenderOnly /\ UNCHANGED MeshVars) \/ RenderMesh
=============================================================================
