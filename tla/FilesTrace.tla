------------------------------ MODULE FilesTrace ------------------------------
(* Recorded histories of files: saves (also onto full disks and places that   *)
(* cannot be written), loads (also of damaged files), writers that receive    *)
(* several objects.                                                           *)
EXTENDS Files, NurbsTrace, ImageTrace
VARIABLES fs,   \* closed files by name: [h: fingerprint, c: content, s: what they are known to describe]
          ws    \* writers by name: [p: path or "", segs: what they were given, bad: a fault may have struck]
FileVars == <<fs, ws>>
FileReset == fs' = Empty /\ ws' = Empty
NoWriter == [p |-> "", segs |-> <<>>, bad |-> FALSE]
GetW(w) == IF w \in DOMAIN ws THEN ws[w] ELSE NoWriter
Special(p) == p \in {"@full", "@none", "@dir"}
Open == {ws[w].p : w \in DOMAIN ws} \ {""}
OpenNext == {ws'[w].p : w \in DOMAIN ws'} \ {""}
Missing == [k |-> "none", b |-> <<>>, size |-> 0]
Content(p) == IF p \in DOMAIN fs THEN fs[p].c ELSE Missing

\* loading may bring numbers that are not finite: indices only
IndicesOk(m) == \A i \in DOMAIN m.t : m.t[i] = <<>> \/ (Len(m.t[i]) = 3 /\ \A k \in 1 .. 3 : ValidV(m, m.t[i][k]))
\* only the named meshes, images and files may have changed
Objects(M, I) ==
  /\ Chk("objects", DOMAIN Ev.ms = DOMAIN ms \cup M)
  /\ Chk("indices", \A n \in M : IndicesOk(Ev.ms[n]))
  /\ Chk("emptiness", \A n \in M : Ev.ms[n].e <=> (Ev.ms[n].t = <<>>))
  /\ Chk("untouched objects", \A n \in DOMAIN ms \ M : ms[n] = State(Ev.ms[n]))
  /\ ms' = Logged /\ UNCHANGED ks
  /\ ITable(I)
Files1(names) ==
  /\ Chk("files", DOMAIN Ev.fs = (DOMAIN fs \cup names) \ OpenNext)
  /\ Chk("untouched files", \A n \in DOMAIN Ev.fs \ names : Ev.fs[n] = fs[n].h)
  /\ fs' = [n \in DOMAIN Ev.fs |-> IF n \in DOMAIN Ev.fc THEN [h |-> Ev.fs[n], c |-> Ev.fc[n]] ELSE fs[n]]
\* objects that are only read may appear, empty
Made(t, n) == IF n \in DOMAIN t THEN {} ELSE {n}
PathsOf(p) == IF Special(p) THEN {} ELSE {p}

EnvStep ==         \* what others do to files
  \/ (Is("f_cap") \/ Is("f_glitch")) /\ UNCHANGED <<ws, NurbsVars>> /\ Files1({}) /\ Objects({}, {})
  \/ /\ Is("f_put") \/ Is("f_hex") \/ Is("f_cut") \/ Is("f_poke") \/ Is("f_add") \/ Is("f_dup") \/ Is("f_del") \/ Is("f_mkdir")
     /\ UNCHANGED <<ws, NurbsVars>> /\ Files1({Ev.p}) /\ Objects({}, {})

\* a save succeeds only if the file is complete, and always when nothing is in its way
Faulty == Ev.cap >= 0 \/ Ev.gl
NoObstacle == ~Faulty /\ ~Special(Ev.p)
Describes(k, c, m) == CASE k = "S" -> c.k = "bytes" /\ StlDescribes(c.b, m)
                        [] k = "O" -> c.k = "lines" /\ ObjDescribes(c.b, <<MeshSeg(m)>>)
                        [] k = "B" -> c.k = "bytes" /\ BmpDescribes(c.b, m)
SaveStep ==
  /\ Is("f_save") /\ UNCHANGED <<ws, NurbsVars>>
  /\ Files1(PathsOf(Ev.p))
  /\ IF Ev.k = "B" THEN Objects({}, Made(im, Ev.m)) /\ Chk("source", Ev.im[Ev.m] = IGet(Ev.m))
     ELSE Objects(Made(ms, Ev.m), {}) /\ Chk("source", State(Ev.ms[Ev.m]) = Get(Ev.m))
  /\ LET able == Ev.k # "B" \/ BmpSupported(IGet(Ev.m)) IN
     /\ (NoObstacle /\ able) => Chk("an unhindered save succeeds", Ev.ok)
     /\ ~able => Chk("unsupported images are refused", ~Ev.ok)
     /\ Special(Ev.p) => Chk("nothing can be stored there", ~Ev.ok)
     /\ (Ev.ok /\ ~Special(Ev.p)) => Chk("the file is complete", Describes(Ev.k, Ev.fc[Ev.p], IF Ev.k = "B" THEN IGet(Ev.m) ELSE Get(Ev.m)))

LoadMeshStep ==
  /\ Is("f_load") /\ Ev.k # "B" /\ UNCHANGED <<ws, NurbsVars>>
  /\ Files1({}) /\ Objects({Ev.m}, {})
  /\ Chk("colour", Ev.ms[Ev.m].c = Get(Ev.m).c)
  /\ LET c == Content(Ev.p) b == c.b IN
     IF Ev.k = "S"
     THEN IF c.k = "bytes" /\ StlComplete(b) THEN Chk("a complete file is read", Ev.ok) /\ Chk("what the file holds", StlHolds(b, After))
          ELSE Chk("an incomplete file is refused", ~Ev.ok)
     ELSE IF c.k = "lines"
          THEN ObjCorrect(b) => Chk("a correct file is read", Ev.ok) /\ Chk("what the file holds", ObjHolds(b, After))
          ELSE Chk("nothing to read", Special(Ev.p) \/ ~Ev.ok \/ (After.v = <<>> /\ After.t = <<>>))
LoadImageStep ==
  /\ Is("f_load") /\ Ev.k = "B" /\ UNCHANGED <<ws, NurbsVars>>
  /\ Files1({}) /\ Objects({}, {Ev.m})
  /\ LET c == Content(Ev.p) b == c.b IN
     IF c.k = "bytes" /\ BmpReadable(b)
     THEN BmpCorrect(b) => Chk("a correct file is read", Ev.ok)
     ELSE Chk("an incomplete file is refused", ~Ev.ok)
  /\ Ev.ok => Chk("what the file holds", BmpHolds(Content(Ev.p).b, I1))

\* ------------------------------------------------------------ writers
\* the file a writer leaves when it is closed describes what it was given
Obstacle(p) == Special(p) \/ Faulty
SetW(w, v) == ws' = [x \in DOMAIN ws \cup {w} |-> IF x = w THEN v ELSE ws[x]]
Left(k, o) == o.p # "" /\ ~Special(o.p) /\ o.p \in DOMAIN Ev.fc
Complete(k, o) == LET c == Ev.fc[o.p] IN
                  IF k = "O" THEN c.k = "lines" /\ ObjDescribes(c.b, o.segs)
                  ELSE c.k = "step" /\ StepDescribes(c.b, o.segs)
ClosedWell(k, o) == (Left(k, o) /\ ~o.bad /\ ~Faulty) => Chk("the closed file is complete", Complete(k, o))
Was(o) == IF o.p = "" \/ Special(o.p) THEN "" ELSE o.p
Hit(o) == o.bad \/ Faulty
WOpen(k) ==
  LET o == GetW(Ev.w) IN
  /\ Chk("file of the writer", Ev.was = Was(o))
  /\ SetW(Ev.w, [p |-> IF Ev.p \in {"@none", "@dir"} THEN "" ELSE Ev.p, segs |-> <<>>, bad |-> Obstacle(Ev.p)])
  /\ Files1((PathsOf(Ev.was) \cup PathsOf(Ev.p)) \ {""})
  /\ Chk("open", IF Ev.p \in {"@none", "@dir"} THEN ~Ev.open ELSE Ev.open)
  /\ (Ev.was # Ev.p) => ClosedWell(k, o)
WWrite(segs) ==
  LET o == GetW(Ev.w) IN
  /\ SetW(Ev.w, [o EXCEPT !.segs = IF o.p = "" THEN @ ELSE @ \o segs, !.bad = Hit(o)])
  /\ Files1({})
  /\ Chk("open", Ev.open <=> o.p # "")
WClose(k, del) ==
  LET o == GetW(Ev.w) IN
  /\ Chk("file of the writer", Ev.was = Was(o))
  /\ SetW(Ev.w, NoWriter)
  /\ Files1(PathsOf(Ev.was) \ {""})
  /\ ~del => Chk("open", ~Ev.open)
  /\ ClosedWell(k, o)
  /\ (k = "O" /\ ~del /\ o.p # "") =>
       /\ (~o.bad /\ ~Faulty) => Chk("an unhindered writer does not fail", ~Ev.failed)
       /\ (Special(o.p) /\ o.segs # <<>>) => Chk("nothing can be stored there", Ev.failed)
       /\ (~Ev.failed /\ Left(k, o)) => Chk("no failure: the file is complete", Complete(k, o))
WriterStep ==
  \/ Is("ow_open") /\ WOpen("O") /\ Objects({}, {}) /\ UNCHANGED NurbsVars
  \/ Is("ow_mesh") /\ Objects(Made(ms, Ev.m), {}) /\ Chk("source", State(Ev.ms[Ev.m]) = Get(Ev.m)) /\ WWrite(<<MeshSeg(Get(Ev.m))>>) /\ UNCHANGED NurbsVars
  \/ Is("ow_poly") /\ Objects({}, {}) /\ WWrite(<<PolySeg(Ev.v)>>) /\ UNCHANGED NurbsVars
  \/ Is("ow_close") /\ WClose("O", FALSE) /\ Objects({}, {}) /\ UNCHANGED NurbsVars
  \/ Is("ow_del") /\ WClose("O", TRUE) /\ Objects({}, {}) /\ UNCHANGED NurbsVars
  \/ Is("sw_open") /\ WOpen("P") /\ Objects({}, {}) /\ UNCHANGED NurbsVars
  \/ Is("sw_surf") /\ Objects({}, {}) /\ NTables({}, {}, {}) /\ WWrite(<<GetN(Ev.m)>>)
  \/ Is("sw_solid") /\ Objects({}, {}) /\ NTables({}, {}, {}) /\ WWrite(GetO(Ev.m))
  \/ Is("sw_close") /\ WClose("P", FALSE) /\ Objects({}, {}) /\ UNCHANGED NurbsVars
  \/ Is("sw_del") /\ WClose("P", TRUE) /\ Objects({}, {}) /\ UNCHANGED NurbsVars
FileStep == EnvStep \/ SaveStep \/ LoadMeshStep \/ LoadImageStep \/ WriterStep
=============================================================================
