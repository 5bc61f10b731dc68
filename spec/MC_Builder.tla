----------------------------- MODULE MC_Builder ------------------------------
(* All setter sequences to a bound on three shapes; they drive the real    *)
(* builders.                                                               *)
EXTENDS Builder, Json, TLC
CONSTANT MaxCalls
V(n) == [k |-> "ok", v |-> n]
Vals == {V(1), V(2), Bad}
Fld(r) == [n |-> <<>>, req |-> r]
Shapes == {[params |-> <<[req |-> TRUE], [req |-> FALSE]>>, body |-> [k |-> "none", fields |-> <<>>]],
           [params |-> <<[req |-> TRUE]>>, body |-> [k |-> "plain", fields |-> <<>>]],
           [params |-> <<[req |-> FALSE]>>, body |-> [k |-> "struct", fields |-> <<Fld(TRUE), Fld(FALSE)>>]]}
Ms == {<<>>} \cup {<<[f |-> f, x |-> x]>> : f \in {1, 2}, x \in {V(1), Bad}}
      \cup {<<[f |-> 1, x |-> Bad], [f |-> 1, x |-> V(2)]>>, <<[f |-> 1, x |-> V(1)], [f |-> 2, x |-> V(1)]>>}
Good == {<<[f |-> 1, x |-> V(3)]>>, <<[f |-> 1, x |-> V(3)], [f |-> 2, x |-> V(3)]>>}
Calls(sh) ==
  {[c |-> "set", p |-> p, x |-> x, m |-> <<>>] : p \in 1..Len(sh.params), x \in Vals}
  \cup {[c |-> "clone", p |-> 0, x |-> Unset, m |-> <<>>]}
  \cup (IF sh.body.k = "none" THEN {}
        ELSE IF sh.body.k = "plain" THEN {[c |-> "body", p |-> 0, x |-> x, m |-> <<>>] : x \in Vals}
        ELSE {[c |-> "body", p |-> 0, x |-> V(3), m |-> m] : m \in Good}
             \cup {[c |-> "body", p |-> 0, x |-> Bad, m |-> <<>>]}
             \cup {[c |-> "build", p |-> 0, x |-> Unset, m |-> m] : m \in Ms}
             \cup {[c |-> "map", p |-> 0, x |-> Unset, m |-> m] : m \in Ms})
MInit == BInit(Shapes)
MNext == \/ Len(hist) < MaxCalls /\ \E c \in Calls(shp) : Setter(c)
         \/ Send
RECURSIVE Seqs(_, _)
Seqs(sh, n) == IF n = 0 THEN {<<>>} ELSE LET s == Seqs(sh, n - 1)
               IN s \cup {Append(h, c) : h \in {x \in s : Len(x) = n - 1}, c \in Calls(sh)}
ASSUME JsonSerialize("scen.json", SetToSeq(UNION {{[body |-> sh.body.k, h |-> h] : h \in Seqs(sh, 3)} : sh \in Shapes}))
=============================================================================
