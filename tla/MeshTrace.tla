------------------------------ MODULE MeshTrace ------------------------------
(* Recorded edit histories of meshes, faces, solids and storage back ends as  *)
(* behaviours of the mesh specification.                                      *)
EXTENDS Mesh, Xform, TraceBase
VARIABLES ms,   \* every mesh of the program by name, also those held by faces and solids
          ks    \* every storage back end by name

State(x) == [c |-> x.c, v |-> x.v, t |-> x.t]
Logged == [n \in DOMAIN Ev.ms |-> State(Ev.ms[n])]
Get(n) == IF n \in DOMAIN ms THEN ms[n] ELSE EmptyMesh
GetK(n) == IF n \in DOMAIN ks THEN ks[n] ELSE EmptyMesh

\* the logged state is well formed, and nothing but the named objects changed
Frame(names) ==
  /\ Chk("objects", DOMAIN Ev.ms = DOMAIN ms \cup names)
  /\ Chk("well formed", \A n \in DOMAIN Ev.ms : WellFormed(Ev.ms[n]))
  /\ Chk("emptiness", \A n \in DOMAIN Ev.ms : Ev.ms[n].e <=> (Ev.ms[n].t = <<>>))
  /\ Chk("untouched objects", \A n \in DOMAIN ms \ names : ms[n] = State(Ev.ms[n]))
  /\ ms' = Logged
  /\ UNCHANGED ks

After == State(Ev.ms[Ev.m])

\* the edited mesh is exactly o / is one of the outcomes, new triangles in any order
Exactly(o) == Frame({Ev.m}) /\ Chk("outcome", After = o)
OneOf(os)  == Frame({Ev.m}) /\ Chk("outcome", \E o \in os : Equiv(o, After, NT(Get(Ev.m))))

AddVertexStep == /\ \/ Is("m_add_vertex") \/ Is("m_add_vertex3") \/ Is("f_add_vertex") \/ Is("s_add_vertex")
                 /\ Chk("id", Ev.ret = NV(Get(Ev.m)))
                 /\ Exactly(AddVertex(Get(Ev.m), Ev.p))
SetVertexStep == /\ Is("m_set_vertex")
                 /\ ValidV(Get(Ev.m), Ev.i)
                 /\ Exactly(SetVertex(Get(Ev.m), Ev.i, Ev.p))
AddTriStep == /\ Is("m_add_triangle")
              /\ Chk("id", Ev.ret = NT(Get(Ev.m)))
              /\ Exactly(AddTri(Get(Ev.m), Ev.a, Ev.b, Ev.c))
AddTriPStep == /\ \/ Is("m_add_triangle_p") \/ Is("f_add_triangle_p") \/ Is("s_add_triangle_p")
               /\ Chk("id", Ev.ret = NT(Get(Ev.m)))
               /\ LET m == Get(Ev.m) n == NV(m) IN
                  Exactly(AddTri(AddVertices(m, <<Ev.a, Ev.b, Ev.c>>), n, n + 1, n + 2))
UnlinkStep == /\ \/ Is("m_unlink") \/ Is("f_unlink") \/ Is("s_unlink")
              /\ ValidT(Get(Ev.m), Ev.t)
              /\ Exactly(Unlink(Get(Ev.m), Ev.t))
SplitVStep == /\ Is("m_split_v")
              /\ LiveT(Get(Ev.m), Ev.t)
              /\ OneOf({SplitAt(Get(Ev.m), Ev.t, Ev.v)})
SplitPStep == /\ Is("m_split_p")
              /\ LiveT(Get(Ev.m), Ev.t)
              /\ OneOf({SplitAt(AddVertex(Get(Ev.m), Ev.p), Ev.t, NV(Get(Ev.m)))})
SplitEdgeStep == /\ Is("m_split_edge")
                 /\ LET m == Get(Ev.m) IN
                    /\ HasEdge(m, Ev.t1, Ev.v1, Ev.v2)
                    /\ HasEdge(m, Ev.t2, Ev.v2, Ev.v1)
                    /\ Ev.t1 # Ev.t2
                    /\ OneOf({SplitEdgeAt(m, Ev.t1, Ev.t2, Ev.v1, Ev.v2, Ev.vs)})
\* reversing may keep the slot or move the triangle to a new one
FlipStep == /\ Is("m_flip")
            /\ LiveT(Get(Ev.m), Ev.t)
            /\ OneOf({Flip(Get(Ev.m), Ev.t)})
QuadStep == Is("m_add_quad") /\ OneOf(QuadOutcomes(Get(Ev.m), Ev.q))
QuadPStep == Is("m_add_quad_p") /\ OneOf(QuadPOutcomes(Get(Ev.m), Ev.q, Ev.opt # 0))
PentagonStep == Is("m_add_pentagon") /\ OneOf(PentagonOutcomes(Get(Ev.m), Ev.q))
ClearStep == Is("m_clear") /\ Exactly(Clear(Get(Ev.m)))
ColorStep == (Is("m_color") \/ Is("f_color") \/ Is("s_color")) /\ Exactly(SetColor(Get(Ev.m), Ev.c))
NewStep == (Is("m_new") \/ Is("f_new") \/ Is("s_new")) /\ Exactly(EmptyMesh)
LoadStep == Is("m_load") /\ Frame({Ev.m})          \* fixture, not an edit under test
StripStep == Is("m_strip") /\ Frame({Ev.m}) /\ Chk("stripped", After = Compact(Get(Ev.f)))
DelStep == /\ Is("m_del")
           /\ Chk("objects", DOMAIN Ev.ms = DOMAIN ms \ {Ev.m})
           /\ Chk("untouched objects", \A n \in DOMAIN Ev.ms : ms[n] = State(Ev.ms[n]))
           /\ ms' = Logged
           /\ UNCHANGED ks
GetStep == /\ Is("m_get")
           /\ Frame({Ev.m})
           /\ Chk("read only", After = Get(Ev.m))
           /\ LET m == Get(Ev.m) IN
              /\ Chk("counts", Ev.nv = NV(m) /\ Ev.nt = NT(m) /\ Ev.c = m.c /\ (Ev.e <=> NT(m) = 0))
              /\ Ev.t >= 0 =>
                 /\ Chk("removed", Ev.dead <=> ~LiveT(m, Ev.t))
                 /\ ~Ev.dead => Chk("corners", Ev.vi = m.t[Ev.t + 1] /\ Ev.vp = Tri(m, Ev.t) /\ Ev.tp = Tri(m, Ev.t))

\* copies: live content and colour; the source (unless it is the target) is framed
CopyStep == /\ \/ Is("m_copy") \/ Is("m_assign") \/ Is("f_copy") \/ Is("f_assign") \/ Is("s_copy") \/ Is("s_assign") \/ Is("f_from_mesh") \/ Is("s_from_mesh")
            /\ Frame({Ev.m} \cup (IF Ev.f \in DOMAIN ms THEN {} ELSE {Ev.f}))
            /\ Chk("source", State(Ev.ms[Ev.f]) = Get(Ev.f) \/ (Ev.f = Ev.m /\ SameLive(State(Ev.ms[Ev.f]), Get(Ev.f))))
            /\ Chk("live content", SameLive(After, Get(Ev.f)))
            /\ Chk("colour", After.c = Get(Ev.f).c)
            /\ ("self" \in DOMAIN Ev) => Chk("returns the target", Ev.self)
AppendStep == /\ Is("m_append")
              /\ Frame({Ev.m} \cup (IF Ev.f \in DOMAIN ms THEN {} ELSE {Ev.f}))
              /\ Ev.f # Ev.m => Chk("source", State(Ev.ms[Ev.f]) = Get(Ev.f))
              /\ LET m == Get(Ev.m) f == Get(Ev.f) o == AppendMesh(m, f) IN
                 /\ Chk("vertices", After.v = o.v)
                 /\ Chk("old triangles", SubSeq(After.t, 1, NT(m)) = m.t)
                 /\ Chk("new triangles", LiveSeq([t |-> SubSeq(After.t, NT(m) + 1, Len(After.t))]) = SubSeq(o.t, NT(m) + 1, Len(o.t)))
                 /\ Chk("colour", After.c \in {m.c, f.c})
AddFaceStep == /\ Is("s_add_face")
               /\ Frame({})

\* storage back ends: same edits, same answers
KState(x) == [c |-> -1, v |-> x.v, t |-> x.t]
KOutcome(o) == /\ Chk("outcome", KState(Ev.ks) = o)
               /\ ks' = [n \in DOMAIN ks \cup {Ev.k} |-> IF n = Ev.k THEN o ELSE ks[n]]
               /\ UNCHANGED ms
KernelStep ==
  \/ Is("k_add_vertex") /\ Chk("id", Ev.ret = NV(GetK(Ev.k))) /\ KOutcome(AddVertex(GetK(Ev.k), Ev.p))
  \/ Is("k_set_vertex") /\ KOutcome(SetVertex(GetK(Ev.k), Ev.i, Ev.p))
  \/ Is("k_add_triangle") /\ Chk("id", Ev.ret = NT(GetK(Ev.k))) /\ KOutcome(AddTri(GetK(Ev.k), Ev.a, Ev.b, Ev.c))
  \/ Is("k_unlink") /\ KOutcome(Unlink(GetK(Ev.k), Ev.t))
  \/ Is("k_clear") /\ KOutcome(Clear(GetK(Ev.k)))

\* every vertex moves by the transform, nothing else changes
TransformStep == /\ Is("m_transform")
                 /\ Frame({Ev.m})
                 /\ LET m == Get(Ev.m) IN
                    /\ Chk("triangles and colour", After.t = m.t /\ After.c = m.c)
                    /\ Chk("moved vertices", MovedAll(Ev.k, Ev.a, m.v, After.v))
Empty == [x \in {} |-> 0]
MeshVars == <<ms, ks>>
MeshReset == ms' = Empty /\ ks' = Empty

EditStep == \/ AddVertexStep \/ SetVertexStep \/ AddTriStep \/ AddTriPStep \/ UnlinkStep \/ SplitVStep \/ SplitPStep
            \/ SplitEdgeStep \/ FlipStep \/ QuadStep \/ QuadPStep \/ PentagonStep \/ ClearStep \/ ColorStep \/ NewStep \/ LoadStep \/ StripStep
            \/ DelStep \/ GetStep \/ CopyStep \/ AppendStep \/ AddFaceStep \/ TransformStep \/ KernelStep
=============================================================================
