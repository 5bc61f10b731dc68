------------------------------ MODULE TraceMock -------------------------------
(***************************************************************************)
(* Decisions of really generated mocks against Mock.  A session is a       *)
(* request that the real client sent for some arguments, and events        *)
(*   match(op, exps, same, accept)  the mock of op with these expectations *)
(*        was shown the request (same: op is the operation called, and all *)
(*        expectations are the arguments of the call)                      *)
(*   then(resp, given, v, status, json, ...)  the answer it was told       *)
(***************************************************************************)
EXTENDS Mock, Json, TLC
CONSTANT Known
Trace == JsonDeserialize("trace.json")
VARIABLES i, l
S == Trace[i]
E == S.events[l]
(* The request as it came over the wire. *)
R == [method |-> S.req.method, path |-> Before(S.req.target, QM), pairs |-> FormPairs(After(S.req.target, QM)).pairs,
      bytes |-> S.req.bytes, jsonok |-> S.req.jsonok, json |-> S.req.json]

(* Known deviations. *)
Dev(k) == k \in Known /\ PrintT(<<"KNOWN", k>>)
(* D5: a path value with characters that are escaped in paths or special in *)
(* regular expressions is put into a regular expression as it is; so is     *)
(* literal text that is escaped on the wire.                                *)
Plain(c) == \/ c \in 48..57 \/ c \in 65..90 \/ c \in 97..122 \/ c \in {45, 95, 126, 58, 64, 33, 38, 39, 59, 61, 44}
PlainText(s) == \A k \in 1..Len(s) : Plain(s[k])
LitSafe(s) == \A k \in 1..Len(s) : s[k] \in 33..126 /\ s[k] \notin {34, 35, 60, 62, 63, 94, 96, 123, 124, 125, 92, 37}
D5(e) == \/ \E k \in 1..Len(e.exps) : e.exps[k].part = "path" /\ ~PlainText(e.exps[k].s)
         \/ \E k \in 1..Len(Parse(e.op.path).comps) : LET c == Parse(e.op.path).comps[k] IN c.k = "lit" /\ ~LitSafe(c.s)
(* D4: a query parameter whose identifier differs from its name is looked   *)
(* for under the identifier.                                                *)
D4(e) == \E k \in 1..Len(e.exps) : e.exps[k].part = "query" /\ e.exps[k].renamed
(* D43: times and some numbers are written in the query in another way than *)
(* the mock expects them.                                                   *)
D43(e) == \E k \in 1..Len(e.exps) : e.exps[k].part = "query" /\ e.exps[k].display
(* D40: the body of a form is compared with JSON; D41: so are raw bytes.    *)
D40(e) == \E k \in 1..Len(e.exps) : e.exps[k].part = "body" /\ e.exps[k].ct = "form"
D41(e) == \E k \in 1..Len(e.exps) : e.exps[k].part = "body" /\ e.exps[k].ct = "bytes"
Excused(e) == \/ D5(e) /\ Dev("D5")
              \/ D4(e) /\ ~e.panic /\ Dev("D4")
              \/ D43(e) /\ ~e.accept /\ ~e.panic /\ Dev("D43")
              \/ D40(e) /\ ~e.accept /\ ~e.panic /\ Dev("D40")
              \/ D41(e) /\ ~e.accept /\ ~e.panic /\ Dev("D41")
MatchRight(e) == LET a == Accepts(e.op, e.exps, R)
                 IN /\ ~e.panic
                    /\ e.accept = a
                    /\ e.same => a
ThenRight(e) == /\ e.status = StatusOf(e.resp, e.given)
                /\ InRange(e.resp, e.given)
                /\ e.resp.kind \in {"json", "raw"} => e.jsonok /\ e.json = e.v
                /\ e.resp.kind = "json" => e.ctype
                /\ e.resp.kind = "none" => e.empty

TInit == i \in 1..Len(Trace) /\ l = 1
TMatch == /\ l <= Len(S.events) /\ E.e = "match"
          /\ IF MatchRight(E) THEN TRUE ELSE Excused(E)
TThen == l <= Len(S.events) /\ E.e = "then" /\ ThenRight(E)
(* A range asks for a status within it. *)
TRefused == l <= Len(S.events) /\ E.e = "refused" /\ ~InRange(E.resp, E.given)
TNext == \/ (TMatch \/ TThen \/ TRefused) /\ l' = l + 1 /\ UNCHANGED i
         \/ l > Len(S.events) /\ UNCHANGED <<i, l>>
=============================================================================
