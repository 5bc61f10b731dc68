---------------------------- MODULE MC_ByteStream ----------------------------
EXTENDS ByteStream, Json, TLC
CONSTANT N
Full(n) == [k \in 1..n |-> k]
Plans == {[full |-> Full(n), cut |-> c, fate |-> f, gated |-> g] :
            n \in 0..N, c \in 0..N, f \in Fates, g \in BOOLEAN}
Good == {p \in Plans : p.cut <= Len(p.full) /\ (p.fate = "complete" => p.cut = Len(p.full))}
MInit == Init(Good)
MSpec == Spec(Good)
(* How the bytes on the wire are split into writes: compositions of cut.   *)
RECURSIVE Comps(_)
Comps(n) == IF n = 0 THEN {<<>>} ELSE UNION {{<<k>> \o r : r \in Comps(n - k)} : k \in 1..n}
ASSUME JsonSerialize("scen.json", SetToSeq(UNION {
   {[n |-> Len(p.full), cut |-> p.cut, fate |-> p.fate, gated |-> p.gated, parts |-> q] : q \in Comps(p.cut)} : p \in Good}))
=============================================================================
