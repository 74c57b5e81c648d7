------------------------------ MODULE TraceBase ------------------------------
(* What all trace specifications share: the recorded events, the position,    *)
(* acceptance, and labels that say which condition rejected an event.         *)
EXTENDS Rat, Integers, Sequences, TLC, IOUtils
VARIABLE l
Trace == LoadTrace(IOEnv.TRACE)
Ev == Trace[l]
More == l <= Len(Trace)
Is(op) == Ev.op = op
\* c, with a note of which condition failed
Chk(label, c) == IF c THEN TRUE ELSE PrintT(<<"FAIL", l, Ev.op, label>>) /\ FALSE
\* every consumed event is one step: accepted when all events were consumed
Accepted == PrintT("@@REACHED " \o ToString(TLCGet("stats").diameter - 1))
=============================================================================
