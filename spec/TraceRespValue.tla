--------------------------- MODULE TraceRespValue ---------------------------
EXTENDS RespValue, Json
Trace == JsonDeserialize("trace.json")
VARIABLES i, l
S == Trace[i]
E == S.events[l]
TInit == /\ i \in 1..Len(Trace) /\ l = 1
         /\ rv = [inner |-> S.inner, status |-> S.status, headers |-> S.headers]
SameHs(a, b) == SameBag(a, b) /\ \A x \in Range(b) : HeaderVals(a, x[1]) = HeaderVals(b, x[1])
Sees == CASE E.op = "status" -> E.n = rv.status
          [] E.op = "headers" -> SameHs(E.h, rv.headers)
          [] E.op = "length" -> E.s = Length(rv)
          [] E.op \in {"deref", "as_ref", "into_inner"} -> E.s = rv.inner
          [] E.op = "debug" -> E.s = Debug(rv.inner)
          [] OTHER -> TRUE
Step == l <= Len(S.events) /\ Sees /\ Do(E.op) /\ l' = l + 1 /\ UNCHANGED i
Done == l > Len(S.events) /\ UNCHANGED <<i, l, rv>>
TNext == Step \/ Done
=============================================================================
