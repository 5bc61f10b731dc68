--------------------------- MODULE TraceErrorView ----------------------------
(***************************************************************************)
(* trace.json: sessions [expect, first, events]; expect is what is known   *)
(* of the error from outside (how it was provoked), first what the error   *)
(* itself held at the beginning, and each event [op, facts, ...observed]   *)
(* carries what the error held after the operation.                        *)
(***************************************************************************)
EXTENDS ErrorView, Json
Trace == JsonDeserialize("trace.json")
VARIABLES i, l
S == Trace[i]
E == S.events[l]
SameHs(a, b) == SameBag(a, b) /\ \A x \in Range(b) : HeaderVals(a, x[1]) = HeaderVals(b, x[1])
Agrees(e, x) == /\ WellFormed(e)
                /\ e.cat = x.cat
                /\ (x.status # 0 => e.status = x.status)
                /\ (x.wstatus # 0 => e.wstatus = x.wstatus)
                /\ (x.hasmsg => e.msg = x.msg)
                /\ (x.hasbytes => e.bytes = x.bytes)
                /\ (x.hasheaders => SameHs(e.headers, x.headers))
TInit == /\ i \in 1..Len(Trace) /\ l = 0
         /\ err = S.first
Start == l = 0 /\ Agrees(err, S.expect) /\ l' = 1 /\ UNCHANGED <<i, err>>
Sees == CASE E.op = "status" -> E.n = Status(err)
          [] E.op = "display" -> DisplayOK(err, E.s)
          [] E.op = "debug" -> DisplayOK(err, E.s)
          [] E.op = "alternate" -> DisplayOK(err, E.s) /\ AlternateOK(err, E.s0, E.s)
          [] E.op = "source" -> E.chain = Source(err) /\ E.same
          [] OTHER -> TRUE
SameFacts(f, e) == /\ \A k \in (DOMAIN e) \ {"headers"} : f[k] = e[k]
                   /\ SameHs(f.headers, e.headers)
Step == /\ l >= 1 /\ l <= Len(S.events)
        /\ Sees /\ Do(E.op)
        /\ SameFacts(E.facts, err')
        /\ l' = l + 1 /\ UNCHANGED i
(* At the end an unexpected response still has its body. *)
End == /\ l = Len(S.events) + 1
       /\ (S.body.has => S.body.got = S.body.sent)
       /\ l' = l + 1 /\ UNCHANGED <<i, err>>
Done == l > Len(S.events) + 1 /\ UNCHANGED <<i, l, err>>
TNext == Start \/ Step \/ End \/ Done
=============================================================================
