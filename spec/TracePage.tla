------------------------------ MODULE TracePage ------------------------------
(***************************************************************************)
(* Recorded runs of real paginated streams.  A session has the fields of   *)
(* TraceCall's (base, version, op, args, body) and answers, the server's   *)
(* answers in order.  Events: ask, req, item(v), err(k), end.              *)
(* pages is what Call's Classify makes of the answers.                     *)
(***************************************************************************)
EXTENDS Pages, Json

Trace == JsonDeserialize("trace.json")
VARIABLES i, l, pages, asked, buf, tok, reqs, given, errs, ended
P == INSTANCE Pagination

S == Trace[i]
E == S.events[l]
TInit == /\ i \in 1..Len(Trace) /\ l = 1
         /\ pages = [k \in 1..Len(Trace[i].answers) |-> PageOf(Trace[i].op, Trace[i].answers[k])]
         /\ asked = FALSE /\ buf = <<>> /\ tok = <<>> /\ reqs = <<>> /\ given = <<>> /\ errs = <<>> /\ ended = FALSE
         /\ call = 0 /\ pc = 0 /\ hooks = 0 /\ sent = 0 /\ got = 0 /\ out = 0
More == l <= Len(S.events)
Frame == UNCHANGED <<i, cvars>>
TAsk == More /\ E.e = "ask" /\ P!Ask /\ l' = l + 1 /\ Frame
TReq == /\ More /\ E.e = "req" /\ P!Fetch
        /\ LET a == ArgsFor(S, tok)
           IN /\ PathOK(S.base, S.op, a, E)
              /\ QueryOK(S.op, a, E)
              /\ HeadersOK(S.version, S.op, a, E)
              /\ BodyOK(S.op, S.body, E)
        /\ l' = l + 1 /\ Frame
TItem == /\ More /\ E.e = "item" /\ buf # <<>> /\ buf[1] = E.v /\ P!Give
         /\ l' = l + 1 /\ Frame
(* The error was decided by the fetch; the consumer is told now. *)
TErr == /\ More /\ E.e = "err" /\ S.events[l - 1].e = "req" /\ errs # <<>> /\ ~asked
        /\ errs[1] = E.k /\ (E.k = "ErrorResponse" => E.st = S.answers[Len(reqs)].status)
        /\ l' = l + 1 /\ UNCHANGED <<i, cvars, pages, asked, buf, tok, reqs, given, errs, ended>>
TEnd == More /\ E.e = "end" /\ P!Over /\ l' = l + 1 /\ Frame
TDone == ~More /\ UNCHANGED <<i, l, cvars, pages, asked, buf, tok, reqs, given, errs, ended>>
TNext == TAsk \/ TReq \/ TItem \/ TErr \/ TEnd \/ TDone

(* Every error is delivered. *)
ErrDelivered == (l > 1 /\ errs # <<>> /\ S.events[l - 1].e # "req") =>
                  \E k \in 1..(l - 1) : S.events[k].e = "err"
OnlyOneErr == Cardinality({k \in 1..(l - 1) : S.events[k].e = "err"}) <= 1
=============================================================================
