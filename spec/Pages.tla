------------------------------- MODULE Pages --------------------------------
(* What the pages of a paginated operation say, and which arguments the       *)
(* request for a later page carries.                                          *)
EXTENDS Call, Request

ITEMS == <<105,116,101,109,115>>
NEXTPAGE == <<110,101,120,116,95,112,97,103,101>>
PAGETOKEN == <<112,97,103,101,95,116,111,107,101,110>>
LIMIT == <<108,105,109,105,116>>

PageOf(op, ans) ==
  LET o == Classify(op, ans)
  IN IF o.k = "ok"
     THEN LET n == Member(o.value.v, NEXTPAGE)
          IN [k |-> "page", items |-> Member(o.value.v, ITEMS).a,
              next |-> IF n.k = "str" THEN <<n.s>> ELSE <<>>]
     ELSE [k |-> "err", kind |-> o.k]

Absent == [k |-> "absent", s |-> <<>>, a |-> <<>>, m |-> <<>>]
(* The arguments of the request that carries the given token: the caller's *)
(* for the first page; later the token, the limit and what is not a query  *)
(* parameter.                                                              *)
ArgsFor(s, t) ==
  [k \in 1..Len(s.args) |->
     LET p == s.op.params[k]
     IN IF p.in = "query" /\ p.n = PAGETOKEN
        THEN IF t = <<>> THEN Absent ELSE [Absent EXCEPT !.k = "text", !.s = t[1]]
        ELSE IF p.in = "query" /\ p.n # LIMIT /\ t # <<>> THEN Absent
        ELSE s.args[k]]
=============================================================================
