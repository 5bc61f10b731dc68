------------------------------ MODULE MC_Params -------------------------------
(* C16, design level: reading declarations one by one in any document order  *)
(* ends in the one result the property allows.                               *)
EXTENDS Params, Json, TLC
CONSTANT NameCount
NameOf == << <<97>>, <<66>>, <<99>> >>                 \* a B c
VARIABLES d, left, acc, phase
vars == <<d, left, acc, phase>>
Locs == {"path", "query", "header"}
Decl(n, in, r, t) == [n |-> n, in |-> in, req |-> r \/ in = "path", tag |-> t]
(* What can be said about one name: <<at path level, at operation level>>.   *)
Saying(n) ==
  {<< <<>>, <<>> >>}
  \cup {<< <<Decl(n, in, r, 0)>>, <<>> >> : in \in Locs, r \in BOOLEAN}
  \cup {<< <<>>, <<Decl(n, in, r, 1)>> >> : in \in Locs, r \in BOOLEAN}
  \cup {<< <<Decl(n, in, r, 0)>>, <<Decl(n, in, q, 1)>> >> : in \in Locs, r \in BOOLEAN, q \in BOOLEAN}
PathNames(f) == {NameOf[k] : k \in {j \in 1..NameCount : \E l \in {1, 2} : f[j][l] # <<>> /\ f[j][l][1].in = "path"}}
Perms(S) == {q \in [1..Cardinality(S) -> S] : \A a, b \in 1..Cardinality(S) : a # b => q[a] # q[b]}
Fam == LET C1 == Saying(NameOf[1])  C2 == Saying(NameOf[2])  C3 == Saying(NameOf[3])
       IN IF NameCount = 2 THEN {<<x, y>> : x \in C1, y \in C2} ELSE {<<x, y, z>> : x \in C1, y \in C2, z \in C3}
Docs == UNION {{[plevel |-> Concat([k \in 1..NameCount |-> f[k][1]]),
                 olevel |-> Concat([k \in 1..NameCount |-> f[k][2]]), names |-> q] : q \in Perms(PathNames(f))} : f \in Fam}
Init == /\ d \in Docs /\ left = [p |-> Range(d.plevel), o |-> Range(d.olevel)] /\ acc = <<>> /\ phase = "path"
(* Declarations of a level are read in any order. *)
Next == \/ /\ phase = "path" /\ left.p # {}
           /\ \E x \in left.p : acc' = Upsert(acc, x) /\ left' = [left EXCEPT !.p = @ \ {x}]
           /\ UNCHANGED <<d, phase>>
        \/ /\ phase = "path" /\ left.p = {} /\ phase' = "op" /\ UNCHANGED <<d, left, acc>>
        \/ /\ phase = "op" /\ left.o # {}
           /\ \E x \in left.o : acc' = Upsert(acc, x) /\ left' = [left EXCEPT !.o = @ \ {x}]
           /\ UNCHANGED <<d, phase>>
        \/ /\ phase = "op" /\ left.o = {} /\ phase' = "done"
           /\ acc' = FoldLeft(LAMBDA s, p : Insert(d.names, s, p), <<>>, acc) /\ UNCHANGED <<d, left>>
Right == phase = "done" => acc = Resolved(d)
OwnRequired == phase = "done" => \A k \in 1..Len(d.olevel) : \E j \in 1..Len(acc) : acc[j] = d.olevel[k]
ASSUME JsonSerialize("scen.json", SetToSeq({[d |-> x, r |-> Resolved(x)] : x \in Docs}))
=============================================================================
