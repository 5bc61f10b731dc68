-------------------------------- MODULE Weave ---------------------------------
(***************************************************************************)
(* Calls under way at the same time on one client (C25).  A plan per call:   *)
(*   [k |-> "one", n]            a call with one answer, sent in n parts      *)
(*   [k |-> "bytes", n]          a call whose body is read piece by piece:    *)
(*                               the head, n pieces, the end                  *)
(*   [k |-> "pages", of]         a stream over pages with of[j] items         *)
(* The environment decides everything: when a call is started, when the       *)
(* server sends the next part of an answer, when the caller asks for more,    *)
(* and when it drops the call.  Acts(st) are its possible actions.            *)
(***************************************************************************)
EXTENDS Bytes

Sum(f) == FoldLeft(LAMBDA x, y : x + y, 0, f)
Parts(p) == CASE p.k = "one" -> p.n [] p.k = "bytes" -> p.n + 2 [] OTHER -> Len(p.of)
Asks(p) == CASE p.k = "one" -> 0 [] p.k = "bytes" -> p.n + 1 [] OTHER -> Sum(p.of) + 1
(* asks that must have been made before the server can have been asked for   *)
(* the part                                                                   *)
Before1(p, part) == IF p.k = "pages" THEN Sum(SubSeq(p.of, 1, part - 1)) + 1 ELSE 0

Fresh(p) == [p |-> p, ph |-> "new", served |-> 0, asks |-> 0]
CanStart(c) == c.ph = "new"
CanServe(c) == c.ph = "live" /\ c.served < Parts(c.p) /\ c.asks >= Before1(c.p, c.served + 1)
CanAsk(c) == c.ph = "live" /\ c.asks < Asks(c.p)
CanDrop(c) == c.ph = "live" /\ (c.served < Parts(c.p) \/ c.asks < Asks(c.p))
Acts(st, drops) == {<<"start", i>> : i \in {j \in DOMAIN st : CanStart(st[j])}} \cup
            {<<"serve", i>> : i \in {j \in DOMAIN st : CanServe(st[j])}} \cup
            {<<"ask", i>> : i \in {j \in DOMAIN st : CanAsk(st[j])}} \cup
            IF Cardinality({j \in DOMAIN st : st[j].ph = "dropped"}) < drops
            THEN {<<"drop", i>> : i \in {j \in DOMAIN st : CanDrop(st[j])}} ELSE {}
Apply(st, a) == [st EXCEPT ![a[2]] = CASE a[1] = "start" -> [@ EXCEPT !.ph = "live"]
                                      [] a[1] = "serve" -> [@ EXCEPT !.served = @ + 1]
                                      [] a[1] = "ask" -> [@ EXCEPT !.asks = @ + 1]
                                      [] OTHER -> [@ EXCEPT !.ph = "dropped"]]
RECURSIVE Runs(_, _)
Runs(st, drops) == LET as == Acts(st, drops)
                   IN IF as = {} THEN {<<>>} ELSE UNION {{<<a>> \o r : r \in Runs(Apply(st, a), drops)} : a \in as}

(* What the caller of a call sees, part by part: <<whose, which>>.            *)
VARIABLES st, seen, slot
wvars == <<st, seen, slot>>
(* what can be seen now: an answer that was served and asked for *)
Visible(c) == CASE c.p.k = "one" -> (IF c.served = c.p.n THEN 1 ELSE 0)
                [] c.p.k = "bytes" -> IF c.served = 0 THEN 0 ELSE 1 + (IF c.asks < c.served - 1 THEN c.asks ELSE c.served - 1)
                [] OTHER -> LET have == Sum(SubSeq(c.p.of, 1, c.served)) + (IF c.served = Len(c.p.of) THEN 1 ELSE 0)
                            IN IF c.asks < have THEN c.asks ELSE have
CONSTANTS Drops, Shared
WInit(plans) == /\ \E ps \in plans : st = [i \in 1..Len(ps) |-> Fresh(ps[i])] /\ seen = [i \in 1..Len(ps) |-> <<>>]
                /\ slot = 0
(* a client with a shared place (Shared) tells whoever wrote there last *)
Env == \E a \in Acts(st, Drops) : st' = Apply(st, a) /\ slot' = (IF a[1] = "start" THEN a[2] ELSE slot) /\ UNCHANGED seen
See == \E i \in DOMAIN st : /\ st[i].ph = "live" /\ Len(seen[i]) < Visible(st[i])
                            /\ seen' = [seen EXCEPT ![i] = Append(@, <<IF Shared THEN slot ELSE i, Len(@) + 1>>)]
                            /\ UNCHANGED <<st, slot>>
WNext == Env \/ See

(* Every caller sees its own call only, in order, and all of it in the end.   *)
Own == \A i \in DOMAIN seen : \A k \in 1..Len(seen[i]) : seen[i][k] = <<i, k>>
All == (\A i \in DOMAIN st : ~CanStart(st[i]) /\ ~CanServe(st[i]) /\ ~CanAsk(st[i]) /\ (st[i].ph = "live" => Len(seen[i]) = Visible(st[i])))
         => \A i \in DOMAIN st : st[i].ph = "dropped" \/ Len(seen[i]) = (IF st[i].p.k = "one" THEN 1 ELSE IF st[i].p.k = "bytes" THEN st[i].p.n + 2 ELSE Sum(st[i].p.of) + 1)
(* a step of one call leaves the others as they are *)
Apart == [][\E i \in DOMAIN st : \A j \in DOMAIN st \ {i} : st'[j] = st[j] /\ seen'[j] = seen[j]]_<<st, seen>>
=============================================================================
