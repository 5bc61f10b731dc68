----------------------------- MODULE TraceQuery -----------------------------
(* Executions of the real query serializer: a session has params           *)
(* <<[n, v]>> and the result res = [ok, query].                             *)
EXTENDS Query, Json
Trace == JsonDeserialize("trace.json")
FORMCT == <<97,112,112,108,105,99,97,116,105,111,110,47,120,45,119,119,119,45,102,111,114,109,45,117,114,108,101,110,99,111,100,101,100>>
VARIABLES i, l, q
vars == <<i, l, q>>
S == Trace[i]
TInit == i \in 1..Len(Trace) /\ l = 1 /\ q = Ok(<<>>)
Add == /\ l <= Len(S.params)
       /\ q' = IF S.form THEN Form(S.params[l].v) ELSE AddTo(q, S.params[l].n, S.params[l].v)
       /\ l' = l + 1 /\ UNCHANGED i
Matches == CASE q.r = "free" -> TRUE
             [] q.r = "err" -> ~S.res.ok /\ (S.form => S.res.invalid)
             [] OTHER -> /\ S.res.ok
                         /\ LET f == FormPairs(S.res.query) IN f.ok /\ f.pairs = q.pairs
                         /\ (S.form => MediaOf(S.res.ct) = FORMCT)
Finish == /\ l = Len(S.params) + 1 /\ Matches /\ l' = l + 1 /\ UNCHANGED <<i, q>>
Done == l = Len(S.params) + 2 /\ UNCHANGED vars
TNext == Add \/ Finish \/ Done
=============================================================================
