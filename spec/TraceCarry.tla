----------------------------- MODULE TraceCarry -------------------------------
(* Recorded verdicts of the real generator; a generator that stops (panics)   *)
(* generates nothing either.                                                   *)
EXTENDS Carry, Json, TLC
Trace == JsonDeserialize("trace.json")
VARIABLES i, l
TInit == i \in 1..Len(Trace) /\ l = 1 /\ d = Trace[i].doc /\ op = 0 /\ part = 0 /\ seen = {} /\ verdict = "reading"
Verdict == /\ l <= Len(Trace[i].events)
           (* commands and mocks have limits of their own: they are only held to refusals *)
           /\ IF Served(d) THEN Trace[i].events[l].style \in {"positional", "builder", "separate"} => Trace[i].events[l].r = "ok"
              ELSE Trace[i].events[l].r \in {"err", "panic"}
           /\ l' = l + 1 /\ UNCHANGED <<i, cvars>>
TDone == l > Len(Trace[i].events) /\ UNCHANGED <<i, l, cvars>>
TNext == Verdict \/ TDone
=============================================================================
