-------------------------------- MODULE Docs ----------------------------------
(***************************************************************************)
(* Free text in documents (C24).  A document is a structure whose places     *)
(* carry texts; the client made from it is code, which the structure alone    *)
(* determines, and documentation, which says what the texts say, each where   *)
(* it belongs.                                                                 *)
(* ops : Seq([id, tags, params : Seq of names]); text : places -> byte seqs    *)
(***************************************************************************)
EXTENDS Bytes, TLC

(* places whose text has to be found in the documentation of an operation *)
OpPlaces(o) == {<<"summary", o.id>>, <<"description", o.id>>} \cup {<<"param", o.id, o.params[k]>> : k \in 1..Len(o.params)}
ApiPlaces == {<<"title">>, <<"about">>, <<"terms">>}
Places(ops) == UNION {OpPlaces(ops[k]) : k \in 1..Len(ops)} \cup ApiPlaces

(* a summary loses the full stops and commas it ends with *)
RECURSIVE Bare(_)
Bare(t) == IF t # <<>> /\ t[Len(t)] \in {46, 44} THEN Bare(SubSeq(t, 1, Len(t) - 1)) ELSE t
Shown(place, t) == IF place[1] = "summary" THEN Bare(t) ELSE t
Within(x, t) == \E k \in 0..(Len(t) - Len(x)) : SubSeq(t, k + 1, k + Len(x)) = x

(* a writer of clients: one operation after the other *)
VARIABLES ops, text, at, code, docs
dvars == <<ops, text, at, code, docs>>
DInit(os, ts) == ops \in os /\ text \in [Places(ops) -> ts] /\ at = 0 /\ code = <<>> /\ docs = [p \in {} |-> <<>>]
Client == /\ at = 0 /\ at' = 1 /\ code' = <<>>
          /\ docs' = (<<"client">> :> Concat(<<text[<<"title">>], text[<<"about">>], text[<<"terms">>]>>)) @@ docs
          /\ UNCHANGED <<ops, text>>
Method == /\ at \in 1..Len(ops) /\ at' = at + 1
          /\ LET o == ops[at]
                 own == <<Bare(text[<<"summary", o.id>>]), <<10>>, text[<<"description", o.id>>], <<10>>>>
                        \o Concat([k \in 1..Len(o.params) |-> <<<<45>>, text[<<"param", o.id, o.params[k]>>], <<10>>>>])
             IN code' = code \o <<o>> /\ docs' = (<<"op", o.id>> :> Concat(own)) @@ docs
          /\ UNCHANGED <<ops, text>>
DNext == Client \/ Method
Done == at > Len(ops)

(* what is said is said where it belongs *)
SaidOf(o, d) == \A p \in OpPlaces(o) : Within(Shown(p, text[p]), d)
SaidOfApi(d) == \A p \in ApiPlaces : Within(text[p], d)
Said == Done => SaidOfApi(docs[<<"client">>]) /\ \A k \in 1..Len(ops) : SaidOf(ops[k], docs[<<"op", ops[k].id>>])
(* texts never reach the code *)
CodeIsStructure == Done => code = ops
=============================================================================
