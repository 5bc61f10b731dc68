----------------------------- MODULE MC_Headers -----------------------------
(***************************************************************************)
(* C04, design level: the header map a client builds by appending its own  *)
(* headers and then the parameters satisfies HeadersOK for every subset of *)
(* parameters given, whatever valid values they carry; replacing instead   *)
(* of appending (Replace) or a value with line breaks would not.           *)
(***************************************************************************)
EXTENDS Request, TLC
VARIABLES given, vals, req, k

N(j) == <<120, 48 + j>>
P(j) == [n |-> N(j), lname |-> N(j), in |-> "header", req |-> FALSE]
Op == [path |-> <<47>>, method |-> "GET", params |-> <<P(1), P(2), P(3)>>,
       accept |-> TRUE, acceptv |-> <<106>>]
Txts == {<<>>, <<97>>, <<32, 97>>, <<97, 9>>, <<97, 10>>, <<233>>, <<0>>, <<127>>}
Host == << <<104,111,115,116>>, <<49>> >>
Own == << << <<97,99,99,101,112,116>>, <<106>> >>,
          << <<97,112,105,45,118,101,114,115,105,111,110>>, <<49>> >>, Host>>
Args == [j \in 1..3 |-> IF j \in given THEN [k |-> "text", s |-> vals[j], a |-> <<>>, m |-> <<>>]
                        ELSE [k |-> "absent", s |-> <<>>, a |-> <<>>, m |-> <<>>]]
Init == given \in SUBSET {1, 2, 3} /\ vals \in [1..3 -> Txts] /\ req = [headers |-> Own] /\ k = 1
(* parameters are appended one by one; an invalid value ends the call *)
Next == \/ /\ k \in 1..3 /\ k \notin given /\ k' = k + 1 /\ UNCHANGED <<given, vals, req>>
        \/ /\ k \in given /\ HeaderValid(vals[k])
           /\ req' = [headers |-> Append(req.headers, <<N(k), Trim(vals[k])>>)]
           /\ k' = k + 1 /\ UNCHANGED <<given, vals>>
        \/ /\ k \in given /\ ~HeaderValid(vals[k]) /\ k' = 99 /\ UNCHANGED <<given, vals, req>>
Sound == /\ k = 4 => HeaderArgsValid(Op, Args) /\ HeadersOK(<<49>>, Op, Args, req)
         /\ k = 99 => ~HeaderArgsValid(Op, Args)
OneVersion == Len(HeaderVals(req.headers, APIVERSION)) = 1
=============================================================================
