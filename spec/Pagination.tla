----------------------------- MODULE Pagination ------------------------------
(***************************************************************************)
(* The stream form of a paginated operation (C09).  The server answers the *)
(* n-th request with pages[n]:                                             *)
(*   [k |-> "page", items, next]  next = <<>> (none) or <<token>>          *)
(*   [k |-> "err", kind]          any answer that is an error              *)
(* The consumer asks for one element at a time; a page is requested only   *)
(* when the items already fetched are used up.                             *)
(***************************************************************************)
EXTENDS Bytes

VARIABLES pages,    \* the server's behaviour
          asked,    \* the consumer waits for an element
          buf,      \* items fetched and not yet delivered
          tok,      \* token of the last page: <<>> or <<token>>
          reqs,     \* tokens of the requests issued, in order (<<>>: none)
          given,    \* items delivered
          errs,     \* errors delivered
          ended     \* the stream has told the consumer that it is finished,
                    \* or will do so at the next question
pvars == <<pages, asked, buf, tok, reqs, given, errs, ended>>

PInit(P) == /\ pages \in P
            /\ asked = FALSE /\ buf = <<>> /\ tok = <<>> /\ reqs = <<>> /\ given = <<>> /\ errs = <<>> /\ ended = FALSE

Ask == /\ ~asked /\ asked' = TRUE /\ UNCHANGED <<pages, buf, tok, reqs, given, errs, ended>>
(* A fetch is due: nothing is left and there is more to come. *)
Due == asked /\ ~ended /\ buf = <<>> /\ (reqs = <<>> \/ tok # <<>>)
Fetch == /\ Due
         /\ reqs' = Append(reqs, tok)
         /\ LET p == pages[Len(reqs) + 1]
            IN IF p.k = "page"
               THEN /\ buf' = p.items /\ tok' = p.next
                    /\ UNCHANGED <<asked, errs>>
                    /\ ended' = FALSE
               ELSE /\ errs' = Append(errs, p.kind) /\ ended' = TRUE /\ asked' = FALSE
                    /\ UNCHANGED <<buf, tok>>
         /\ UNCHANGED <<pages, given>>
Give == /\ asked /\ buf # <<>>
        /\ given' = Append(given, buf[1]) /\ buf' = Tail(buf) /\ asked' = FALSE
        /\ UNCHANGED <<pages, tok, reqs, errs, ended>>
Over == /\ asked /\ buf = <<>> /\ (ended \/ (reqs # <<>> /\ tok = <<>>))
        /\ ended' = TRUE /\ asked' = FALSE
        /\ UNCHANGED <<pages, buf, tok, reqs, given, errs>>
PNext == Ask \/ Fetch \/ Give \/ Over

(* --- what the consumer may rely on ------------------------------------------*)
Fetched == Concat([k \in 1..Len(reqs) |-> IF pages[k].k = "page" THEN pages[k].items ELSE <<>>])
InOrderOnce == given \o buf = Fetched
TokensFollow == \A k \in 1..Len(reqs) :
                  IF k = 1 THEN reqs[k] = <<>>
                  ELSE pages[k - 1].k = "page" /\ reqs[k] = pages[k - 1].next /\ reqs[k] # <<>>
OneErrorLast == /\ Len(errs) <= 1
                /\ (errs # <<>> => ended /\ pages[Len(reqs)].k = "err" /\ buf = <<>>)
StopsAfterLast == ended => buf = <<>> /\ (errs # <<>> \/ (reqs # <<>> /\ tok = <<>>))
(* Before a later page is requested every item of the earlier ones was given. *)
Lazy == \/ Len(reqs) <= 1
        \/ Len(given) >= Len(Concat([k \in 1..(Len(reqs) - 1) |-> pages[k].items]))
NoMoreAfterEnd == [][ended => reqs' = reqs /\ given' = given /\ errs' = errs]_pvars
LazyStep == [][(reqs' # reqs) => (asked /\ buf = <<>>)]_pvars
=============================================================================
