---------------------------- MODULE MeshOpsTrace ----------------------------
(* Recorded whole-mesh operations.                                            *)
EXTENDS MeshOps, MeshTrace

MergeStep == /\ (Is("m_merge") \/ Is("m_merge_default"))
             /\ Frame({Ev.m})
             /\ LET m == Get(Ev.m) IN
                /\ Chk("merge", MergePost(m, Ev.tol, After))
                /\ RLt(Zero, Ev.tol) => Chk("still too close", MergeTight(Ev.tol, After))
                /\ (RLt(Zero, Ev.tol) /\ Separated(m, Ev.tol)) => Chk("one vertex per position", MergeExact(m, After))
RemoveEmptyStep == /\ (Is("m_remove_empty") \/ Is("m_remove_empty_default"))
                   /\ Frame({Ev.m})
                   /\ Chk("remove empty", RemoveEmptyPost(Get(Ev.m), Ev.tol, After))
New(f) == IF f \in DOMAIN ms THEN {} ELSE {f}
TessStep == /\ Is("m_tessellate") /\ Ev.m # Ev.f
            /\ Frame({Ev.m} \cup New(Ev.f))
            /\ Chk("subdivision", TessPost(Get(Ev.f), Ev.n, After, Ev.own, Ev.lat))
            /\ Chk("colour", After.c = Get(Ev.m).c)
FromZStep == /\ Is("m_from_z") /\ Frame({Ev.m})
             /\ Chk("height field", FromZPost(Ev.w, Ev.h, Ev.z, After))
             /\ Chk("colour", After.c = Get(Ev.m).c)
FromGridStep == /\ Is("m_from_grid") /\ Frame({Ev.m})
                /\ Chk("grid", FromGridPost(Ev.w, Ev.h, Ev.g, After))
                /\ Chk("colour", After.c = Get(Ev.m).c)
MeasureStep == /\ Is("m_measure") /\ Frame({Ev.m})
               /\ LET m == Get(Ev.m) IN
                  /\ Chk("read only", After = m)
                  /\ Chk("volume", VolumeOk(m, Ev.vol)) /\ Chk("surface", SurfaceOk(m, Ev.surf))
                  /\ Chk("degenerate", NoDegOk(m, Ev.nodeg)) /\ Chk("outside", OutsideOk(m, Ev.out))
                  /\ Chk("closed", ClosedOk(m, Ev.closed)) /\ Chk("clean", CleanOk(m, Ev))
FactoryStep == /\ Is("m_factory") /\ Frame({Ev.m})
               /\ LET t == Welded(After, Ev.weld) IN
                  /\ Chk("weld", WeldOk(After, Ev.weld, FactorySmall(Ev.k, Ev.a)))
                  /\ Chk("not empty", t # <<>>)
                  /\ Chk("manifold", ManifoldSeq(t))
                  /\ Chk("topology", EulerChar(t) = IF Ev.k = "torus" THEN 0 ELSE 4)
                  /\ Chk("outward", Ev.k = "torus" \/ Star(After, FactorySmall(Ev.k, Ev.a)))
                  /\ Chk("ideal shape", ShapePost(Ev.k, Ev.a, Ev.n, After))
                  /\ Chk("colour", After.c = Get(Ev.m).c)
SplitTriStep == /\ Is("m_split_tri") /\ Frame({Ev.m})
                /\ ValidT(Get(Ev.m), Ev.t)
                /\ LET m == Get(Ev.m) IN
                   /\ Chk("only that triangle", CutOne(m, Ev.t, After))
                   /\ Chk("removed", ~LiveT(m, Ev.t) => After = m)
                   /\ Chk("same surface", SameSurface(m, After))
BooleanStep == /\ Is("m_boolean")
               /\ Frame({"Aonly", "Bonly", "AinB", "BinA"} \cup New(Ev.a) \cup New(Ev.b))
               /\ Chk("A", SameSurface(Get(Ev.a), State(Ev.ms["Aonly"])))
               /\ Chk("B", SameSurface(Get(Ev.b), State(Ev.ms["Bonly"])))
\* two meshes of which one had triangles removed that the other never had
Facets(m) == LET s == LiveSeq(m)
                 F(x) == {<<Pos(m, x[1]), Pos(m, x[2]), Pos(m, x[3])>>, <<Pos(m, x[2]), Pos(m, x[3]), Pos(m, x[1])>>, <<Pos(m, x[3]), Pos(m, x[1]), Pos(m, x[2])>>}
             IN [i \in DOMAIN s |-> F(s[i])]
TwinStep == /\ Is("m_twin") /\ Frame({Ev.m, Ev.f})
            /\ LET a == Get(Ev.m) b == Get(Ev.f) IN
               /\ Chk("read only", State(Ev.ms[Ev.m]) = a /\ State(Ev.ms[Ev.f]) = b)
               /\ Chk("same vertices", Range(a.v) = Range(b.v) /\ Len(a.v) = Len(b.v))
               /\ Chk("same surface", (a.v = b.v /\ LiveSeq(a) = LiveSeq(b)) \/ SameBag(Facets(a), Facets(b)))
               /\ Chk("same measures", Near(Ev.vol0, Ev.vol1, MeasEps(a) \otimes Cube(Extent(a))) /\ Near(Ev.surf0, Ev.surf1, MeasEps(a) \otimes RSq(Extent(a))))
               /\ Chk("same checks", Ev.nodeg0 = Ev.nodeg1 /\ Ev.closed0 = Ev.closed1)
MeshOpStep == TwinStep \/ MergeStep \/ RemoveEmptyStep \/ TessStep \/ FromZStep \/ FromGridStep \/ MeasureStep \/ FactoryStep \/ SplitTriStep \/ BooleanStep
=============================================================================
