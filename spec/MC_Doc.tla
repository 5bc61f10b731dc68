------------------------------- MODULE MC_Doc ---------------------------------
EXTENDS Doc, Json, TLC
CONSTANT MaxOps
Op == {[has |-> FALSE, id |-> <<>>]} \cup {[has |-> TRUE, id |-> i] : i \in {<<97>>, <<98>>}}
RECURSIVE OpSeqs(_)
OpSeqs(n) == IF n = 0 THEN {<<>>} ELSE OpSeqs(n - 1) \cup {Append(s, o) : s \in {x \in OpSeqs(n - 1) : Len(x) = n - 1}, o \in Op}
Path == {[ref |-> TRUE, ops |-> <<>>]} \cup {[ref |-> FALSE, ops |-> s] : s \in OpSeqs(MaxOps)}
Versions == {<<51,46,48,46,51>>, <<51,46,49,46,48>>, <<50,46,48>>}       \* 3.0.3 3.1.0 2.0
Paths == {<<>>} \cup {<<p>> : p \in Path} \cup {<<p, q>> : p \in Path, q \in Path}
P3 == {<<p, q, r>> : p \in Path, q \in {[ref |-> FALSE, ops |-> s] : s \in OpSeqs(1)}, r \in {[ref |-> FALSE, ops |-> s] : s \in OpSeqs(1)}}
Docs == {[version |-> v, paths |-> p] : v \in Versions, p \in Paths} \cup {[version |-> <<51,46,48,46,51>>, paths |-> p] : p \in P3}
MInit == DInit(Docs)
ASSUME JsonSerialize("scen.json", SetToSeq(Docs))
=============================================================================
