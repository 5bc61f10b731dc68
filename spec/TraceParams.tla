----------------------------- MODULE TraceParams ------------------------------
(* The arguments of really generated functions and the setters of really     *)
(* generated builders.  A session has d (names in the document), body        *)
(* ("none"|"plain"|"struct"), ident: pairs <<API name, identifier>>.         *)
EXTENDS Params, Json
Trace == JsonDeserialize("trace.json")
VARIABLES i, l
S == Trace[i]
E == S.events[l]
BODY == <<98,111,100,121>>
BODYMAP == <<98,111,100,121,95,109,97,112>>
Ident(n) == S.ident[CHOOSE k \in 1..Len(S.ident) : S.ident[k][1] = n][2]
Args == LET r == Resolved(S.d) IN [k \in 1..Len(r) |-> Ident(r[k].n)] \o (IF S.body = "none" THEN <<>> ELSE <<BODY>>)
Setters == Range(Args) \cup (IF S.body = "struct" THEN {BODYMAP} ELSE {})
TInit == i \in 1..Len(Trace) /\ l = 1
Positional == E.e = "fn" /\ E.args = Args
BuilderFns == E.e = "setters" /\ Range(E.names) = Setters /\ Len(E.names) = Cardinality(Setters)
Step1 == l <= Len(S.events) /\ (Positional \/ BuilderFns) /\ l' = l + 1 /\ UNCHANGED i
TDone == l > Len(S.events) /\ UNCHANGED <<i, l>>
TNext == Step1 \/ TDone
=============================================================================
