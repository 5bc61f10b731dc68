------------------------------ MODULE TraceWeave ------------------------------
(***************************************************************************)
(* Recorded weaves of real calls on one client.  A session has      *)
(* version and calls, each with base and who (its client), op, args, body     *)
(* and its answers:                                                          *)
(*   kind "one"    answers[1] is the answer, sent in n parts                  *)
(*   kind "bytes"  answers[1] is the whole answer, pieces its parts           *)
(*   kind "pages"  answers[j] is the answer to its j-th request               *)
(* Events: start ask serve drop (of the environment, with the call i),        *)
(* hook req (which do not say whose they are), out chunk end item err (with    *)
(* the call whose caller saw it).                                             *)
(***************************************************************************)
EXTENDS Pages, Json

Trace == JsonDeserialize("trace.json")
VARIABLES i, l, w
S == Trace[i]
E == S.events[l]
New == [ph |-> "new", pre |-> 0, post |-> 0, reqs |-> 0, served |-> 0, asks |-> 0, outs |-> 0, got |-> <<>>, given |-> 0,
        buf |-> <<>>, tok |-> <<>>, err |-> "", over |-> FALSE]
TInit == /\ i \in 1..Len(Trace) /\ l = 1 /\ w = [k \in 1..Len(Trace[i].calls) |-> New]
         /\ call = 0 /\ pc = 0 /\ hooks = 0 /\ sent = 0 /\ got = 0 /\ out = 0
To(k, r) == w' = [w EXCEPT ![k] = r] /\ l' = l + 1 /\ UNCHANGED <<i, cvars>>
C(k) == S.calls[k]
Live(k) == w[k].ph = "live"
Paged(k) == C(k).kind = "pages"

(* whose request this is: calls differ in their path, or in their query (byq) *)
Args(k) == IF Paged(k) THEN ArgsFor(C(k), w[k].tok) ELSE C(k).args
Whose(r) == {k \in DOMAIN w : PathOK(C(k).base, C(k).op, C(k).args, r) /\ (C(k).byq => QueryOK(C(k).op, C(k).args, r))}
Due(k) == IF Paged(k) THEN w[k].asks > w[k].given /\ w[k].buf = <<>> /\ ~w[k].over /\ w[k].err = "" /\ (w[k].reqs = 0 \/ w[k].tok # <<>>)
                           /\ w[k].served = w[k].reqs
          ELSE w[k].reqs = 0

TStart == E.e = "start" /\ w[E.i].ph = "new" /\ To(E.i, [w[E.i] EXCEPT !.ph = "live"])
TAsk == E.e = "ask" /\ Live(E.i) /\ To(E.i, [w[E.i] EXCEPT !.asks = @ + 1])
TDrop == E.e = "drop" /\ Live(E.i) /\ To(E.i, [w[E.i] EXCEPT !.ph = "dropped"])
THook == /\ E.e = "hook"
         /\ \E k \in Whose(E) :
              /\ C(k).who = E.who /\ Live(k)
              /\ IF E.n = "pre" THEN Due(k) /\ w[k].pre = w[k].reqs /\ To(k, [w[k] EXCEPT !.pre = @ + 1])
                 ELSE w[k].served >= w[k].reqs /\ w[k].post = w[k].reqs - 1 /\ To(k, [w[k] EXCEPT !.post = @ + 1])
(* a request may still arrive when its call was dropped meanwhile *)
TReq == /\ E.e = "req"
        /\ \E k \in Whose(E) :
             /\ w[k].ph \in {"live", "dropped"} /\ Due(k) /\ w[k].pre = w[k].reqs + 1
             /\ QueryOK(C(k).op, Args(k), E) /\ HeadersOK(S.version, C(k).op, Args(k), E) /\ BodyOK(C(k).op, C(k).body, E)
             /\ To(k, [w[k] EXCEPT !.reqs = @ + 1])
Items(k, j) == PageOf(C(k).op, C(k).answers[j])
TServe == /\ E.e = "serve" /\ Live(E.i) /\ w[E.i].reqs > 0
          /\ IF Paged(E.i) THEN LET p == Items(E.i, w[E.i].served + 1)
                                IN /\ w[E.i].served < w[E.i].reqs
                                   /\ IF p.k = "page" THEN To(E.i, [w[E.i] EXCEPT !.served = @ + 1, !.buf = p.items, !.tok = p.next])
                                      ELSE To(E.i, [w[E.i] EXCEPT !.served = @ + 1, !.err = p.kind])
             ELSE To(E.i, [w[E.i] EXCEPT !.served = @ + 1])

(* what the caller of call k sees is what its own exchange gives it *)
SameHeaders(a, b) == SameBag(a, b)
SameValue(o, v) == IF v.k = "json" THEN o.k = "json" /\ o.v = v.v ELSE o.k = v.k \/ (v.k = "stream" /\ o.k = "open")
Exact(o, e) ==
  CASE e.k \in {"ok", "ErrorResponse"} -> o.k = e.k /\ o.status = e.status /\ SameHeaders(o.headers, e.headers) /\ SameValue(o.value, e.value)
    [] e.k = "InvalidResponsePayload" -> o.k = e.k /\ o.bytes = e.bytes
    [] e.k = "UnexpectedResponse" -> o.k = e.k /\ o.status = e.status /\ SameHeaders(o.headers, e.headers) /\ o.body = e.body
    [] OTHER -> o.k = e.k
TOut == /\ E.e = "out" /\ Live(E.i) /\ ~Paged(E.i) /\ w[E.i].outs = 0
        /\ w[E.i].served >= C(E.i).n /\ w[E.i].post = 1
        /\ Exact(E, Classify(C(E.i).op, C(E.i).answers[1]))
        /\ To(E.i, [w[E.i] EXCEPT !.outs = 1, !.over = C(E.i).kind = "one"])
(* pieces[1] is the head; the end is the part after the last piece *)
Served(k) == LET n == w[k].served - 1 IN Concat(SubSeq(C(k).pieces, 1, IF n < Len(C(k).pieces) THEN n ELSE Len(C(k).pieces)))
TChunk == /\ E.e = "chunk" /\ Live(E.i) /\ w[E.i].outs = 1 /\ ~w[E.i].over
          /\ LET g == w[E.i].got \o E.bytes IN IsPrefix(g, Served(E.i)) /\ To(E.i, [w[E.i] EXCEPT !.got = g])
TEnd == /\ E.e = "end" /\ Live(E.i)
        /\ IF Paged(E.i) THEN /\ w[E.i].asks > w[E.i].given /\ w[E.i].buf = <<>> /\ w[E.i].tok = <<>> /\ w[E.i].served > 0 /\ ~w[E.i].over
                              /\ E.how = "clean"
           ELSE /\ w[E.i].outs = 1 /\ ~w[E.i].over /\ w[E.i].served = Len(C(E.i).pieces) + 2
                /\ w[E.i].got = Served(E.i)
                /\ E.how = IF C(E.i).answers[1].complete THEN "clean" ELSE "error"
        /\ To(E.i, [w[E.i] EXCEPT !.over = TRUE])
TItem == /\ E.e = "item" /\ Live(E.i) /\ Paged(E.i) /\ w[E.i].asks > w[E.i].given /\ w[E.i].buf # <<>> /\ w[E.i].post = w[E.i].served
         /\ w[E.i].buf[1] = E.v
         /\ To(E.i, [w[E.i] EXCEPT !.given = @ + 1, !.buf = Tail(@)])
TErr == /\ E.e = "err" /\ Live(E.i) /\ Paged(E.i) /\ w[E.i].asks > w[E.i].given /\ w[E.i].err # "" /\ ~w[E.i].over
        /\ E.k = w[E.i].err
        /\ To(E.i, [w[E.i] EXCEPT !.over = TRUE])
(* nothing is left hanging *)
TDone == /\ l > Len(S.events) /\ \A k \in DOMAIN w : w[k].ph = "dropped" \/ w[k].over
         /\ UNCHANGED <<i, l, w, cvars>>
TNext == (l <= Len(S.events) /\ (TStart \/ TAsk \/ TDrop \/ THook \/ TReq \/ TServe \/ TOut \/ TChunk \/ TEnd \/ TItem \/ TErr)) \/ TDone
=============================================================================
