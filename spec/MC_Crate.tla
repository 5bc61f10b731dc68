------------------------------ MODULE MC_Crate --------------------------------
EXTENDS Crate, Json
CONSTANT Depth
VARIABLES n, before
Feats == {"paginated", "websocket", "uuid", "chrono", "pattern", "anyjson"}
Doc == {[doc |-> d, features |-> f, served |-> TRUE] : d \in {"d1", "d2"}, f \in {g \in SUBSET Feats : Cardinality(g) \in {0, 1, 6}}}
       \cup {[doc |-> "bad", features |-> {}, served |-> FALSE]}
R(d, i, st, a, g) == [want |-> <<d.doc, d.features, st>>, features |-> d.features, served |-> d.served, include |-> i, args |-> a, registry |-> g, blocked |-> FALSE,
                      name |-> "n", version |-> "1.0.0", license |-> "l"]
Runs == {R(d, i, st, a, g) : d \in Doc, i \in BOOLEAN, st \in {"positional", "builder", "separate"}, a \in {TRUE}, g \in {"", "reg"}}
        \cup {R([doc |-> "d1", features |-> {}, served |-> TRUE], TRUE, "positional", FALSE, ""),
             [R([doc |-> "d1", features |-> {}, served |-> TRUE], TRUE, "positional", TRUE, "") EXCEPT !.blocked = TRUE]}
Texts == {<<>>, MAN :> Foreign("a"), SUP :> Foreign("b"), (LIB :> Foreign("c")) @@ ("README" :> Foreign("d"))}
MInit == before \in Texts /\ CInit(before) /\ n = 0
Untouched == Others(before)
MNext == n < Depth /\ n' = n + 1 /\ UNCHANGED before /\ \E r \in Runs : Run(r)
(* every set of features, both ways *)
ASSUME JsonSerialize("feats.json", SetToSeq({[features |-> SetToSeq(f), include |-> i] : f \in SUBSET Feats, i \in BOOLEAN}))
=============================================================================
