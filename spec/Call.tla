-------------------------------- MODULE Call --------------------------------
(***************************************************************************)
(* The life of one generated client call (C03-C06, C10, C12): arguments    *)
(* are checked and the request is built, the configured hooks run around   *)
(* exactly one exchange, and the answer is classified by the declared      *)
(* responses.                                                              *)
(*                                                                         *)
(* call = [valid      : are the arguments encodable,                       *)
(*         cfg        : [pre, preA, post, postA : BOOLEAN,                 *)
(*                       preAFail, postAFail : BOOLEAN],                   *)
(*         op         : [responses : Seq([st, kind, ty]), ws : BOOLEAN],   *)
(*         ans        : the server's behaviour, see Got]                   *)
(***************************************************************************)
EXTENDS Bytes, TLC

VARIABLES call, pc, hooks, sent, got, out

cvars == <<call, pc, hooks, sent, got, out>>

NoOut == [k |-> "none"]
NoGot == [k |-> "none"]

(* The steps of a valid call, in order. *)
Steps(c) ==
  (IF c.cfg.pre THEN <<"pre">> ELSE <<>>) \o (IF c.cfg.preA THEN <<"preA">> ELSE <<>>)
  \o <<"exchange">>
  \o (IF c.cfg.post THEN <<"post">> ELSE <<>>) \o (IF c.cfg.postA THEN <<"postA">> ELSE <<>>)
  \o <<"classify">>

(* --- declared responses ---------------------------------------------------*)
(* A response entry's st is [k |-> "code", n], [k |-> "range", n] or       *)
(* [k |-> "default", n |-> 0].  Only entries that can be a success (101,   *)
(* 2xx, 2XX, default) or an error (4xx, 5xx, 4XX, 5XX, default) take part: *)
(* the generated client has no variant for declared 1xx and 3xx answers.   *)
Takes(e) == \/ e.st.k = "default"
            \/ e.st.k = "code" /\ (e.st.n = 101 \/ e.st.n \in 200..299 \/ e.st.n \in 400..599)
            \/ e.st.k = "range" /\ e.st.n \in {2, 4, 5}
SuccDeclared(op) == \E j \in 1..Len(op.responses) :
                      LET st == op.responses[j].st
                      IN st.k = "default" \/ (st.k = "code" /\ st.n \in 200..299) \/ (st.k = "range" /\ st.n = 2)
(* No declared success: any 2xx is a raw success.  Websocket: 101.         *)
Entries(op) ==
  SelectSeq(op.responses, Takes)
  \o (IF SuccDeclared(op) THEN <<>> ELSE << [st |-> [k |-> "range", n |-> 2], kind |-> "raw", ty |-> [t |-> "any"]] >>)
  \o (IF op.ws THEN << [st |-> [k |-> "code", n |-> 101], kind |-> "upgrade", ty |-> [t |-> "any"]] >> ELSE <<>>)

Covers(e, status) == CASE e.st.k = "code" -> e.st.n = status
                       [] e.st.k = "range" -> status \in (e.st.n * 100)..(e.st.n * 100 + 99)
                       [] OTHER -> TRUE
Rank(e) == CASE e.st.k = "code" -> 0 [] e.st.k = "range" -> 1 [] OTHER -> 2
Applies(op, status) ==
  LET es == Entries(op)
      c == {j \in 1..Len(es) : Covers(es[j], status)}
  IN IF c = {} THEN [k |-> "none"]
     ELSE LET j == CHOOSE x \in c : \A y \in c : Rank(es[x]) <= Rank(es[y])
          IN [k |-> "entry", e |-> es[j]]
IsSuccess(e, status) == CASE e.st.k = "default" -> status \in 200..299
                          [] OTHER -> status \in 200..299 \/ status = 101

(* --- decoding ------------------------------------------------------------- *)
RECURSIVE Conforms(_, _), Norm(_, _)
Member(v, n) == LET k == SelectInSeq(v.o, LAMBDA m : m[1] = n) IN IF k = 0 THEN [k |-> "missing"] ELSE v.o[k][2]
(* Decimal integer texts (TLC's own integers are too small).               *)
Neg(s) == s[1] = 45
Digits(s) == IF Neg(s) THEN Tail(s) ELSE s
RECURSIVE LexLE(_, _, _)
LexLE(a, b, k) == IF k > Len(a) THEN TRUE ELSE IF a[k] = b[k] THEN LexLE(a, b, k + 1) ELSE a[k] < b[k]
MagLE(a, b) == Len(a) < Len(b) \/ (Len(a) = Len(b) /\ LexLE(a, b, 1))
IntLE(a, b) == IF Neg(a) THEN (IF Neg(b) THEN MagLE(Digits(b), Digits(a)) ELSE TRUE)
               ELSE IF Neg(b) THEN FALSE ELSE MagLE(a, b)
IsInt(v) == v.k = "num" /\ v.a = <<>>      \* a literal without fraction and exponent
Hexes(s, a, z) == \A k \in a..z : IsHex(s[k])
UuidText(s) == /\ Len(s) = 36 /\ \A k \in {9, 14, 19, 24} : s[k] = 45
               /\ Hexes(s, 1, 8) /\ Hexes(s, 10, 13) /\ Hexes(s, 15, 18) /\ Hexes(s, 20, 23) /\ Hexes(s, 25, 36)
Conforms(ty, v) ==
  CASE ty.t = "any" -> TRUE
    [] ty.t = "str" -> v.k = "str"
    [] ty.t = "int" -> IsInt(v) /\ IntLE(ty.lo, v.s) /\ IntLE(v.s, ty.hi)
    [] ty.t = "uuid" -> v.k = "str" /\ UuidText(v.s)
    [] ty.t = "num" -> v.k = "num"
    [] ty.t = "bool" -> v.k = "bool"
    [] ty.t = "null" -> v.k = "null"
    [] ty.t = "enum" -> v.k = "str" /\ \E j \in 1..Len(ty.of) : ty.of[j] = v.s
    [] ty.t = "arr" -> v.k = "arr" /\ \A j \in 1..Len(v.a) : Conforms(ty.items, v.a[j])
    [] ty.t = "map" -> v.k = "obj" /\ \A j \in 1..Len(v.o) : Conforms(ty.items, v.o[j][2])
    [] ty.t = "struct" ->
         v.k = "obj" /\ \A j \in 1..Len(ty.fields) :
            LET f == ty.fields[j]  m == Member(v, f.n)
            IN IF m.k = "missing" THEN ~f.req
               ELSE IF m.k = "null" /\ ~f.req THEN TRUE ELSE Conforms(f.ty, m)
    [] OTHER -> FALSE
(* The value a body denotes at a type: unknown members and absent options  *)
(* are dropped.                                                            *)
Norm(ty, v) ==
  CASE ty.t = "struct" ->
         LET keep == SelectSeq(v.o, LAMBDA m : \E j \in 1..Len(ty.fields) :
                                  ty.fields[j].n = m[1] /\ (ty.fields[j].req \/ m[2].k # "null"))
         IN [v EXCEPT !.o = [k \in 1..Len(keep) |->
               <<keep[k][1], Norm((ty.fields[CHOOSE j \in 1..Len(ty.fields) : ty.fields[j].n = keep[k][1]]).ty, keep[k][2])>>]]
    [] ty.t = "arr" -> [v EXCEPT !.a = [k \in 1..Len(v.a) |-> Norm(ty.items, v.a[k])]]
    [] ty.t = "map" -> [v EXCEPT !.o = [k \in 1..Len(v.o) |-> <<v.o[k][1], Norm(ty.items, v.o[k][2])>>]]
    [] v.k = "num" -> [v EXCEPT !.a = <<>>, !.o = <<>>, !.s = IF ty.t = "num" THEN v.o[1][1] ELSE v.s]
    [] v.k = "arr" -> [v EXCEPT !.a = [k \in 1..Len(v.a) |-> Norm(ty, v.a[k])]]
    [] v.k = "obj" -> [v EXCEPT !.o = [k \in 1..Len(v.o) |-> <<v.o[k][1], Norm(ty, v.o[k][2])>>]]
    [] OTHER -> v

(* g = [k |-> "resp", status, headers, body, complete, jsonok, json]       *)
(*   | [k |-> "fail"]                                                      *)
Value(e, g) ==
  CASE e.kind = "json" ->
         IF ~g.complete THEN [k |-> "ResponseBodyError"]
         ELSE IF g.jsonok /\ Conforms(e.ty, g.json) THEN [k |-> "value", v |-> [k |-> "json", v |-> Norm(e.ty, g.json)]]
         ELSE [k |-> "InvalidResponsePayload", bytes |-> g.body]
    [] e.kind = "none" -> [k |-> "value", v |-> [k |-> "unit"]]
    [] e.kind = "raw" -> [k |-> "value", v |-> [k |-> "stream", bytes |-> g.body,
                                                end |-> IF g.complete THEN "clean" ELSE "error"]]
    [] e.kind = "upgrade" -> IF g.status = 101 THEN [k |-> "value", v |-> [k |-> "upgraded"]]
                             ELSE [k |-> "notswitched"]
    [] OTHER -> [k |-> "impossible"]

Unexpected(g) == [k |-> "UnexpectedResponse", status |-> g.status, headers |-> g.headers,
                  body |-> IF g.complete THEN [k |-> "bytes", bytes |-> g.body] ELSE [k |-> "broken"],
                  st |-> g.status]
Classify(op, g) ==
  IF g.k = "fail" THEN [k |-> "CommunicationError", st |-> 0]
  ELSE LET a == Applies(op, g.status)
       IN IF a.k = "none" THEN Unexpected(g)
          ELSE LET v == Value(a.e, g)
               IN CASE v.k = "ResponseBodyError" -> [k |-> "ResponseBodyError", st |-> 0]
                    [] v.k = "InvalidResponsePayload" -> [k |-> v.k, bytes |-> v.bytes, st |-> 0]
                    [] v.k = "notswitched" -> Unexpected(g)
                    [] IsSuccess(a.e, g.status) ->
                         [k |-> "ok", status |-> g.status, headers |-> g.headers, value |-> v.v]
                    [] OTHER -> [k |-> "ErrorResponse", status |-> g.status, headers |-> g.headers,
                                 value |-> v.v, st |-> g.status]

(* A post-hook sees the result of the exchange: its status, or a failure.  *)
SeesResult(e, g) == IF g.k = "resp" THEN e.saw = "resp" /\ e.status = g.status ELSE e.saw = "fail"

(* --- websocket upgrades (C12) --------------------------------------------- *)
B64(c) == c \in 65..90 \/ c \in 97..122 \/ c \in 48..57 \/ c \in {43, 47}
KeyOK(v) == /\ Len(v) = 24 /\ v[23] = 61 /\ v[24] = 61 /\ \A k \in 1..22 : B64(v[k])
            /\ v[22] \in {65, 81, 103, 119}        \* 16 bytes: the last digit carries two bits
Tokens(v) == LET ps == Split(LowerSeq(v), 44) IN {Trim(ps[k]) : k \in 1..Len(ps)}
TheKey(r) == LET v == HeaderVals(r.headers, <<115,101,99,45,119,101,98,115,111,99,107,101,116,45,107,101,121>>) IN v[1]
UpgradeRequestOK(r) ==
  LET one(n) == HeaderVals(r.headers, n)
  IN /\ r.method = "GET"
     /\ Len(one(<<99,111,110,110,101,99,116,105,111,110>>)) = 1 /\ <<117,112,103,114,97,100,101>> \in Tokens(one(<<99,111,110,110,101,99,116,105,111,110>>)[1])
     /\ Len(one(<<117,112,103,114,97,100,101>>)) = 1 /\ LowerSeq(Trim(one(<<117,112,103,114,97,100,101>>)[1])) = <<119,101,98,115,111,99,107,101,116>>
     /\ Len(one(<<115,101,99,45,119,101,98,115,111,99,107,101,116,45,118,101,114,115,105,111,110>>)) = 1 /\ Trim(one(<<115,101,99,45,119,101,98,115,111,99,107,101,116,45,118,101,114,115,105,111,110>>)[1]) = <<49, 51>>
     /\ Len(one(<<115,101,99,45,119,101,98,115,111,99,107,101,116,45,107,101,121>>)) = 1 /\ KeyOK(one(<<115,101,99,45,119,101,98,115,111,99,107,101,116,45,107,101,121>>)[1])
     /\ r.fresh                                   \* no earlier request used this key
TunnelOK(v) == v.received = v.sent_by_server /\ v.server_received = v.sent

(* --- the machine ------------------------------------------------------------*)
Init(calls) == /\ call \in calls
               /\ pc = 0 /\ hooks = <<>> /\ sent = 0 /\ got = NoGot /\ out = NoOut

Refuse == /\ pc = 0 /\ ~call.valid
          /\ pc' = 99 /\ out' = [k |-> "InvalidRequest", st |-> 0]
          /\ UNCHANGED <<call, hooks, sent, got>>
Build == /\ pc = 0 /\ call.valid
         /\ pc' = 1
         /\ UNCHANGED <<call, hooks, sent, got, out>>

At(step) == pc \in 1..Len(Steps(call)) /\ Steps(call)[pc] = step

Hook(n) == /\ At(n)
           /\ hooks' = Append(hooks, n)
           /\ IF n = "preA" /\ call.cfg.preAFail
              THEN pc' = 99 /\ out' = [k |-> "PreHookError", st |-> 0]
              ELSE IF n = "postA" /\ call.cfg.postAFail
              THEN pc' = 99 /\ out' = [k |-> "PostHookError", st |-> 0]
              ELSE pc' = pc + 1 /\ UNCHANGED out
           /\ UNCHANGED <<call, sent, got>>
Exchange == /\ At("exchange")
            /\ sent' = sent + 1
            /\ got' = call.ans
            /\ pc' = pc + 1
            /\ UNCHANGED <<call, hooks, out>>
Finish == /\ At("classify")
          /\ out' = Classify(call.op, got)
          /\ pc' = 99
          /\ UNCHANGED <<call, hooks, sent, got>>
Done == pc = 99 /\ UNCHANGED cvars

HookNames == {"pre", "preA", "post", "postA"}
Next == Refuse \/ Build \/ (\E n \in HookNames : Hook(n)) \/ Exchange \/ Finish \/ Done

(* --- what must be true of it ------------------------------------------------*)
Configured(c) == SelectSeq(Steps(c), LAMBDA s : s \in HookNames)
HooksInOrder == IsPrefix(hooks, Configured(call))
AtMostOneExchange == sent <= 1
InvalidIsSilent == (pc = 99 /\ ~call.valid) => sent = 0 /\ hooks = <<>> /\ out.k = "InvalidRequest"
PreHookFailureSendsNothing == out.k = "PreHookError" => sent = 0 /\ hooks = SelectSeq(<<"pre", "preA">>, LAMBDA n : n = "preA" \/ call.cfg.pre)
PostHooksSeeEverything == (pc = 99 /\ sent = 1) => hooks = Configured(call)
NeverFalseSuccess ==
  out.k = "ok" => /\ sent = 1 /\ got.k = "resp"
                  /\ got.status \in 200..299 \cup {101}
                  /\ out.status = got.status /\ out.headers = got.headers
                  /\ (got.status = 101 => call.op.ws)
                  /\ (out.value.k = "json" => got.complete /\ got.jsonok)
DeclaredErrorsAreErrors ==
  (pc = 99 /\ sent = 1 /\ got.k = "resp" /\ got.status \notin 200..299 \cup {101}) => out.k # "ok"
UncoveredIsUnexpected ==
  (pc = 99 /\ out.k \notin {"PostHookError", "none"} /\ sent = 1 /\ got.k = "resp" /\ Applies(call.op, got.status).k = "none")
    => out.k = "UnexpectedResponse"
FailureIsCommunication == (pc = 99 /\ sent = 1 /\ got.k = "fail") => out.k \in {"CommunicationError", "PostHookError"}
PayloadBytesKept == out.k = "InvalidResponsePayload" => out.bytes = got.body /\ got.complete
TypeOK == /\ sent \in 0..1 /\ out.k \in {"none", "ok", "InvalidRequest", "PreHookError", "PostHookError",
             "CommunicationError", "ResponseBodyError", "InvalidResponsePayload", "ErrorResponse", "UnexpectedResponse"}
          /\ (pc = 99) = (out.k # "none")
=============================================================================
