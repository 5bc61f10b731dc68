------------------------------- MODULE MC_Weave -------------------------------
(* All weaves of two calls, with at most one drop; they are played on the     *)
(* real clients.                                                               *)
EXTENDS Weave, Json, TLC
CONSTANT Deep, Write
One == [k |-> "one", n |-> 1]
Two == [k |-> "one", n |-> 2]
Bytes1(n) == [k |-> "bytes", n |-> n]
Pg(of) == [k |-> "pages", of |-> of]
Kinds == {Two, Bytes1(0), Bytes1(1), Pg(<<1>>), Pg(<<1, 0>>)}
More == Kinds \cup {One, Bytes1(2), Pg(<<1, 1>>), Pg(<<0, 1>>), Pg(<<2>>)}
Plans == {<<a, b>> : a \in Kinds, b \in Kinds} \cup {<<a, b, One>> : a \in {One, Bytes1(0)}, b \in Kinds}
           \cup IF Deep THEN {<<a, b>> : a \in More, b \in More} \cup {<<a, b, One>> : a \in {Bytes1(2), Pg(<<1, 1>>)}, b \in More} ELSE {}
MInit == WInit(Plans)
Few == {<<a, b>> : a \in {Two, Bytes1(0), Pg(<<1>>)}, b \in {Two, Bytes1(0), Pg(<<1>>)}}
ASSUME Write => JsonSerialize("scen.json", SetToSeq(UNION {{[p |-> ps, r |-> r] : r \in Runs([i \in 1..2 |-> Fresh(ps[i])], 1)} : ps \in Few}))
=============================================================================
