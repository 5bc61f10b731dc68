----------------------------- MODULE TraceKeys ------------------------------
(***************************************************************************)
(* The websocket keys of all calls of a run (C12): pairwise different, and *)
(* random, i.e. every digit of the base64 text varies.                     *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, Json
Keys == JsonDeserialize("trace.json")
VARIABLE i
TInit == i = 1
TNext == UNCHANGED i
Distinct == Cardinality({Keys[k] : k \in 1..Len(Keys)}) = Len(Keys)
At(p) == {Keys[k][p] : k \in 1..Len(Keys)}
(* With 100 keys a random digit takes fewer than 24 of its 64 values with  *)
(* probability below 10^-13.                                               *)
Random == Len(Keys) >= 100 => /\ \A p \in 1..21 : Cardinality(At(p)) >= 24
                              /\ Cardinality(At(22)) >= 2
=============================================================================
