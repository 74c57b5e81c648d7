---------------------------- MODULE SystemTrace ----------------------------
(* The whole system: a recorded history is accepted when every call of it is  *)
(* a step of one of the parts, the others staying as they are.                *)
EXTENDS FilesTrace, GeomTrace, BezierTrace, RenderTrace

vars == <<l, ms, ks, cs, ns, os, im, tf, bs, ss, cb, bl, fs, ws, rs>>
TraceInit == l = 1 /\ ms = Empty /\ ks = Empty /\ cs = Empty /\ ns = Empty /\ os = Empty /\ im = Empty /\ tf = Empty
             /\ bs = Empty /\ ss = Empty /\ cb = Empty /\ bl = [b |-> Empty, s |-> Empty] /\ fs = Empty /\ ws = Empty /\ rs = Empty
ResetStep == Is("Reset") /\ MeshReset /\ NurbsReset /\ ImageReset /\ GeomReset /\ BezierReset /\ FileReset /\ RenderReset
TraceNext == /\ More /\ l' = l + 1
             /\ \/ ResetStep
                \/ (EditStep \/ MeshOpStep) /\ UNCHANGED <<NurbsVars, ImageVars, GeomVars, BezierVars, FileVars, RenderVars>>
                \/ NurbsStep /\ UNCHANGED <<ImageVars, GeomVars, BezierVars, FileVars, RenderVars>>
                \/ ImageStep /\ UNCHANGED <<MeshVars, NurbsVars, GeomVars, BezierVars, FileVars, RenderVars>>
                \/ GeomStep /\ UNCHANGED <<MeshVars, NurbsVars, ImageVars, BezierVars, FileVars, RenderVars>>
                \/ BezierStep /\ UNCHANGED <<NurbsVars, ImageVars, GeomVars, FileVars, RenderVars>>
                \/ FileStep /\ UNCHANGED <<GeomVars, BezierVars, RenderVars>>
                \/ RenderStep /\ UNCHANGED <<NurbsVars, ImageVars, GeomVars, BezierVars, FileVars>>
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
