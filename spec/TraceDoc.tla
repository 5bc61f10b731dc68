------------------------------ MODULE TraceDoc --------------------------------
(* Recorded verdicts of the real generator: every session is a document and *)
(* the verdict of each entry point ("ok", "err" or "panic").                 *)
EXTENDS Doc, Json
Trace == JsonDeserialize("trace.json")
VARIABLES i, l
TInit == i \in 1..Len(Trace) /\ l = 1 /\ d = Trace[i].doc /\ path = 0 /\ op = 0 /\ seen = {} /\ verdict = "reading"
Verdict == /\ l <= Len(Trace[i].events)
           /\ Trace[i].events[l].r = IF Served(d) THEN "ok" ELSE "err"
           /\ l' = l + 1 /\ UNCHANGED <<i, dvars>>
TDone == l > Len(Trace[i].events) /\ UNCHANGED <<i, l, dvars>>
TNext == Verdict \/ TDone
=============================================================================
