------------------------------ MODULE RespValue ------------------------------
(***************************************************************************)
(* A typed response (C06): status, headers and inner value.  Only the      *)
(* caller's own writes ("set", "push") and its mapping function change the *)
(* inner value; nothing changes status or headers.                         *)
(***************************************************************************)
EXTENDS Bytes
VARIABLES rv        \* [inner, status, headers]

CLEN == <<99,111,110,116,101,110,116,45,108,101,110,103,116,104>>
Digit(c) == c \in 48..57
U64MAX == <<49,56,52,52,54,55,52,52,48,55,51,55,48,57,53,53,49,54,49,53>>
RECURSIVE LE(_, _, _)
LE(a, b, k) == IF k > Len(a) THEN TRUE ELSE IF a[k] = b[k] THEN LE(a, b, k + 1) ELSE a[k] < b[k]
RECURSIVE Plain(_)
Plain(s) == IF Len(s) > 1 /\ s[1] = 48 THEN Plain(Tail(s)) ELSE s
IsU64(t) == LET s == Plain(t) IN
            /\ s # <<>> /\ \A k \in 1..Len(s) : Digit(s[k])
            /\ Len(s) < Len(U64MAX) \/ (Len(s) = Len(U64MAX) /\ LE(s, U64MAX, 1))
(* The first content-length, if it is a number. *)
Length(r) == LET v == HeaderVals(r.headers, CLEN) IN IF v # <<>> /\ IsU64(v[1]) THEN Plain(v[1]) ELSE <<110,111,110,101>>

Debug(s) == <<34>> \o Concat([k \in 1..Len(s) |-> IF s[k] \in {34, 92} THEN <<92, s[k]>> ELSE <<s[k]>>]) \o <<34>>
Writers == {"set", "push", "map"}
Readers == {"status", "headers", "length", "deref", "as_ref", "into_inner", "debug"}
After_(r, op) == CASE op = "set" -> [r EXCEPT !.inner = <<115,101,116>>]
                   [] op = "push" -> [r EXCEPT !.inner = Append(@, 112)]
                   [] op = "map" -> [r EXCEPT !.inner = <<109>> \o @]
                   [] OTHER -> r
Do(op) == rv' = After_(rv, op)
=============================================================================
