----------------------------- MODULE TraceCall ------------------------------
(***************************************************************************)
(* Validation of recorded executions of generated client calls against     *)
(* Call (life cycle, classification) and Request (what goes on the wire).  *)
(*                                                                         *)
(* trace.json is a sequence of sessions; every session is an initial state *)
(* and its events must be explained one by one:                            *)
(*   hook(n, ok)  a hook ran (ok: it saw the result of the exchange)       *)
(*   req(...)     the server received a request                            *)
(*   out(...)     what the caller got                                      *)
(* Focus selects the property being decided: the other properties' clauses *)
(* are then not judged.                                                    *)
(***************************************************************************)
EXTENDS Call, Request, BuilderArgs, Json

CONSTANTS Focus, Known

Trace == LET raw == JsonDeserialize("trace.json")
         IN IF raw # <<>> /\ "calls" \in DOMAIN raw[1] THEN [k \in 1..Len(raw) |-> BResolve(raw[k])] ELSE raw

VARIABLES i, l
tvars == <<i, l, cvars>>

S == Trace[i]
E == S.events[l]
Sub(p) == \/ Focus = p \/ Focus = "ALL"
          \/ Focus = "C11" /\ p \in {"C01", "C02", "C03", "C04"}
          \/ Focus \in {"C14", "C15", "C16", "C20"} /\ p \in {"C01", "C02", "C03", "C04"}

(* Nothing about the arguments prevents the request.                       *)
ArgsValid(s) == /\ HeaderArgsValid(s.op, s.args)
                /\ \A k \in 1..Len(s.args) : s.args[k].k # "bad"
                /\ s.body.k # "bad"

CallOf(s) == [valid |-> ArgsValid(s), cfg |-> s.cfg, op |-> s.op, ans |-> s.ans]

TInit == /\ i \in 1..Len(Trace) /\ l = 1
         /\ call = CallOf(Trace[i])
         /\ pc = 0 /\ hooks = <<>> /\ sent = 0 /\ got = NoGot /\ out = NoOut

(* --- what a request must look like --------------------------------------- *)
Deviation(k) == k \in Known /\ PrintT(<<"KNOWN", k>>)
(* The pre-hooks were shown the request that is then sent, and what the    *)
(* async pre-hook did to it is part of it.                                 *)
HooksSawIt(r) ==
  /\ \A k \in 1..(l - 1) : S.events[k].e = "hook" =>
       S.events[k].method = r.method /\ S.events[k].target = r.target
  /\ r.marked = IF call.cfg.preA THEN 1 ELSE 0
ReqOK(s, r) ==
  /\ Sub("C01") => IF PathOK(s.base, s.op, s.args, r) THEN TRUE
                   ELSE /\ "D2" \in Known
                        /\ PathDotNormalised(s.base, s.op, s.args, r)
                        /\ Deviation("D2")
  /\ Sub("C02") => QueryOK(s.op, s.args, r)
  /\ Sub("C03") => BodyOK(s.op, s.body, r)
  /\ Sub("C04") => HeadersOK(s.version, s.op, s.args, r)
  /\ Sub("C12") => (s.op.ws => UpgradeRequestOK(r))
  /\ Focus = "C10" => HooksSawIt(r)

(* --- how the observed outcome must relate to the one specified ------------ *)
SameHeaders(a, b) ==
  /\ SameBag(a, b)
  /\ \A x \in Range(b) : HeaderVals(a, x[1]) = HeaderVals(b, x[1])
SameValue(o, v) ==
  CASE v.k = "json" -> o.k = "json" /\ o.v = v.v
    [] v.k = "stream" -> o.k = "stream" /\ o.end = v.end /\ o.bytes = v.bytes
    [] OTHER -> o.k = v.k
HeadSame(o, e) == o.status = e.status /\ SameHeaders(o.headers, e.headers)
Exact(o, e) ==
  CASE e.k \in {"ok", "ErrorResponse"} -> o.k = e.k /\ HeadSame(o, e) /\ SameValue(o.value, e.value)
    [] e.k = "InvalidResponsePayload" -> o.k = e.k /\ o.bytes = e.bytes
    [] e.k = "UnexpectedResponse" -> o.k = e.k /\ HeadSame(o, e) /\ o.body = e.body
    [] OTHER -> o.k = e.k
(* The category, and the status wherever there is one. *)
Category(o, e) == /\ o.k = e.k
                  /\ e.k \in {"ok", "ErrorResponse", "UnexpectedResponse"} => o.status = e.status
IsError(o) == o.k \notin {"ok", "panic", "hang"}
(* A request that must not be sent: which error it is belongs to C02-C04.   *)
OutOK(o, e) ==
  CASE Focus = "C01" -> TRUE
    [] Focus = "C02" -> (e.k = "InvalidRequest" => IsError(o))
    [] Focus = "C03" -> (e.k = "InvalidRequest" => IsError(o) /\ (S.body.strict => o.k = e.k))
    [] Focus = "C04" -> (e.k = "InvalidRequest" => o.k = e.k)
    [] Focus = "C05" -> Category(o, e)
    [] Focus = "C06" -> (e.k # "InvalidRequest" => Exact(o, e))
    [] Focus \in {"C10", "C11", "C14", "C15", "C16"} -> Category(o, e)
    [] Focus = "C12" -> IF e.k = "ok" THEN Exact(o, e) /\ (e.value.k = "upgraded" => TunnelOK(o.value))
                        ELSE IsError(o)
    [] OTHER -> Exact(o, e)

(* --- explaining the events -------------------------------------------------- *)
(* Known deviation D18: a document version that is not visible ASCII makes *)
(* every call panic while it builds the api-version header.                *)
PanicKnown == /\ "D18" \in Known /\ \E k \in 1..Len(S.version) : S.version[k] \notin 32..126
              /\ l <= Len(S.events) /\ E.e = "out" /\ E.k = "panic" /\ pc = 0
TPanic == /\ PanicKnown /\ Deviation("D18")
          /\ pc' = 99 /\ out' = [k |-> "panic"] /\ UNCHANGED <<call, hooks, sent, got>>
          /\ l' = l + 1 /\ UNCHANGED i
(* Every step below is determined by the state and the next event.         *)
Silent == /\ pc = 0 /\ l <= Len(S.events) /\ ~PanicKnown
          /\ call.valid /\ Build
          /\ UNCHANGED <<i, l>>
THook == /\ l <= Len(S.events) /\ E.e = "hook"
         /\ Hook(E.n)
         /\ Sub("C10") => E.own /\ (E.n \in {"post", "postA"} => SeesResult(E, got))
         /\ l' = l + 1 /\ UNCHANGED i
TReq == /\ l <= Len(S.events) /\ E.e = "req"
        /\ Exchange
        /\ ReqOK(S, E)
        /\ l' = l + 1 /\ UNCHANGED i
(* The exchange failed before the server saw a request. *)
TNoReq == /\ l <= Len(S.events) /\ E.e # "req" /\ S.mayfail
          /\ Exchange
          /\ UNCHANGED <<i, l>>
TOut == /\ l <= Len(S.events) /\ E.e = "out"
        /\ \/ (Refuse \/ Finish) /\ OutOK(E, out')
           \/ pc = 99 /\ OutOK(E, out) /\ UNCHANGED cvars
        /\ l' = l + 1 /\ UNCHANGED i
TDone == l > Len(S.events) /\ pc = 99 /\ UNCHANGED tvars
TNext == Silent \/ THook \/ TReq \/ TNoReq \/ TPanic \/ TOut \/ TDone
=============================================================================
