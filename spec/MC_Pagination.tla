---------------------------- MODULE MC_Pagination ----------------------------
(* All page histories to a bound; the histories drive the real clients.    *)
EXTENDS Pagination, Json, TLC
CONSTANT MaxPages, MaxItems
VARIABLE polls
Tok == {<<97>>, <<98>>, <<>>}          \* tokens, one of them the empty text
Items(n, j) == [k \in 1..n |-> 10 * j + k]
NextPages(j) == {[k |-> "page", items |-> Items(n, j), next |-> <<t>>] : n \in 0..MaxItems, t \in Tok}
FinalPage(j) == {[k |-> "page", items |-> Items(n, j), next |-> <<>>] : n \in 0..MaxItems}
           \cup {[k |-> "err", kind |-> e] : e \in {"declared", "unexpected", "payload", "cut", "transport"}}
RECURSIVE Hist(_, _)
Hist(j, left) == {<<p>> : p \in FinalPage(j)} \cup
                 (IF left = 1 THEN {} ELSE {<<p>> \o h : p \in NextPages(j), h \in Hist(j + 1, left - 1)})
P == Hist(1, MaxPages)
MInit == PInit(P) /\ polls = 0
MNext == \/ /\ PNext
            /\ polls' = IF asked' /\ ~asked THEN polls + 1 ELSE polls
            /\ polls' <= MaxPages * MaxItems + 4
MSpec == MInit /\ [][MNext]_<<pvars, polls>>
ASSUME JsonSerialize("scen.json", SetToSeq({[h |-> h] : h \in P}))
=============================================================================
