----------------------------- MODULE MC_Template ------------------------------
(* C14, design level: on every text to a bound, reading character by         *)
(* character accepts exactly the declaratively acceptable texts, and what is *)
(* read renders back to the text with repeated slashes collapsed.            *)
EXTENDS Template, Json, TLC
CONSTANT MaxLen
Alphabet == {SLASH, LB, RB, 97, 98}
VARIABLES s, m
Init == s = <<>> /\ m = MInit
Next == /\ Len(s) < MaxLen
        /\ \E c \in Alphabet : s' = Append(s, c) /\ m' = Step(m, c)
Ok(x) == x.st \in {"lit", "after"}
Collapse(x) == LET keep == SelectSeq([k \in 1..Len(x) |-> [c |-> x[k], drop |-> k > 1 /\ x[k] = SLASH /\ x[k - 1] = SLASH]],
                                     LAMBDA e : ~e.drop)
               IN [k \in 1..Len(keep) |-> keep[k].c]
ReadsExactly == Ok(m) = Accepted(s)
ParseIsMachine == Parse(s).ok = Ok(m)
Faithful == Ok(m) => Render(Parse(s)) = Collapse(s)
(* The names are the texts between the braces, in order. *)
Opens == SelectSeq([k \in 1..Len(s) |-> k], LAMBDA k : s[k] = LB)
NamesInOrder == Ok(m) => Names(Parse(s)) = [k \in 1..Len(Opens) |->
                   LET p == Opens[k]  q == CHOOSE j \in (p + 1)..Len(s) : s[j] = RB /\ \A i \in (p + 1)..(j - 1) : s[i] # RB
                   IN SubSeq(s, p + 1, q - 1)]
RECURSIVE Texts(_)
Texts(n) == IF n = 0 THEN {<<>>} ELSE LET t == Texts(n - 1) IN t \cup {Append(x, c) : x \in {y \in t : Len(y) = n - 1}, c \in Alphabet}
ASSUME JsonSerialize("scen.json", SetToSeq(Texts(MaxLen - 1)))
=============================================================================
