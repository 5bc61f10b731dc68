---------------------------- MODULE TraceTemplate -----------------------------
(* Verdicts of the real generator on path templates: ok with the argument    *)
(* names of the generated function, or err.                                  *)
EXTENDS Template, Json
Trace == JsonDeserialize("trace.json")
VARIABLES i, l
S == Trace[i]
E == S.events[l]
Distinct(ns) == FoldLeft(LAMBDA acc, n : IF n \in Range(acc) THEN acc ELSE Append(acc, n), <<>>, ns)
TInit == i \in 1..Len(Trace) /\ l = 1
Verdict == /\ l <= Len(S.events)
           /\ LET t == Parse(S.path)
              IN IF t.ok THEN E.r = "ok" /\ (E.named => E.args = Distinct(Names(t)))
                 ELSE E.r = "err"
           /\ l' = l + 1 /\ UNCHANGED i
TDone == l > Len(S.events) /\ UNCHANGED <<i, l>>
TNext == Verdict \/ TDone
=============================================================================
