----------------------------- MODULE TraceSchema ------------------------------
(* Real conversions.  A session has o and j (the schema of the document and   *)
(* what the type generator received), oenv, jenv: the named schemas they may  *)
(* refer to, vals: values (with `common`, those of the model as well),    *)
(* strict: no reading that only describes a known finding, and known: the     *)
(* known finding this is the place of, or "".                                 *)
EXTENDS Schema, Json, TLC
Trace == JsonDeserialize("trace.json")
Common == JsonDeserialize("vals.json")
VARIABLES i, l
S == Trace[i]
Allowed == IF S.strict THEN {rd \in Reading : ~rd.xn} ELSE Reading
Vals == S.vals \o (IF S.common THEN Common ELSE <<>>)
TInit == i \in 1..Len(Trace) /\ l = 0
Notes1 == l = 0 /\ SameNotes(S.o, S.j) /\ l' = 1 /\ UNCHANGED i
Value1 == /\ l \in 1..Len(Vals)
          /\ \/ Keeps(S.o, S.j, Vals[l], S.oenv, S.jenv, Allowed)
             \/ /\ S.known # "" /\ Vals[l].k = "null"
                /\ \E rd \in Reading : OValid(S.o, Vals[l], S.oenv, rd) = JValid(S.j, Vals[l], S.jenv)
                /\ PrintT(<<"KNOWN", S.known>>)
          /\ l' = l + 1 /\ UNCHANGED i
TDone == l > Len(Vals) /\ UNCHANGED <<i, l>>
TNext == Notes1 \/ Value1 \/ TDone
=============================================================================
