------------------------------ MODULE ErrorView ------------------------------
(***************************************************************************)
(* An error a generated client returned and the views of it (C08).         *)
(*                                                                         *)
(* err = [cat     : category (a variant of the client's Error type),       *)
(*        status  : of the response it holds, 0 if it holds none,          *)
(*        headers : of that response,                                      *)
(*        msg     : the message of a request or hook error,                *)
(*        bytes   : the payload that did not decode,                       *)
(*        value   : the debug text of the typed error value,               *)
(*        chain   : texts of the wrapped error and of its causes, outermost*)
(*                  first (empty when nothing is wrapped),                 *)
(*        traits  : what the wrapped error says it is,                     *)
(*        wstatus : the status the wrapped error carries, or 0]            *)
(***************************************************************************)
EXTENDS Bytes

Wrapping == {"CommunicationError", "InvalidUpgrade", "ResponseBodyError", "InvalidResponsePayload"}
Transport == Wrapping \ {"InvalidResponsePayload"}
Answering == {"ErrorResponse", "UnexpectedResponse"}
Textual == {"InvalidRequest", "PreHookError", "PostHookError"}
Categories == Wrapping \cup Answering \cup Textual

WellFormed(e) == /\ e.cat \in Categories
                 /\ (e.cat \in Answering) = (e.status # 0)
                 /\ (e.cat \in Wrapping) = (e.chain # <<>>)
                 /\ (e.wstatus # 0 => e.cat \in Transport)
                 /\ (e.cat \notin Textual => e.msg = <<>>)
                 /\ (e.cat # "InvalidResponsePayload" => e.bytes = <<>>)

(* --- the views ------------------------------------------------------------*)
Status(e) == IF e.cat \in Answering THEN e.status ELSE IF e.cat \in Transport THEN e.wstatus ELSE 0
Unit == <<40, 41>>                                     \* "()"
Untyped(e) == IF e.cat = "ErrorResponse" THEN [e EXCEPT !.value = Unit] ELSE e
Causes(e) == IF e.chain = <<>> THEN <<>> ELSE Tail(e.chain)      \* the deeper ones
Source(e) == e.chain                                   \* <<>>: no source

Label == [c \in Categories |->
  CASE c = "InvalidRequest" -> <<73,110,118,97,108,105,100,32,82,101,113,117,101,115,116>>
    [] c = "CommunicationError" -> <<67,111,109,109,117,110,105,99,97,116,105,111,110,32,69,114,114,111,114>>
    [] c = "InvalidUpgrade" -> <<73,110,118,97,108,105,100,32,82,101,115,112,111,110,115,101,32,85,112,103,114,97,100,101>>
    [] c = "ErrorResponse" -> <<69,114,114,111,114,32,82,101,115,112,111,110,115,101>>
    [] c = "ResponseBodyError" -> <<73,110,118,97,108,105,100,32,82,101,115,112,111,110,115,101,32,66,111,100,121,32,66,121,116,101,115>>
    [] c = "InvalidResponsePayload" -> <<73,110,118,97,108,105,100,32,82,101,115,112,111,110,115,101,32,80,97,121,108,111,97,100>>
    [] c = "UnexpectedResponse" -> <<85,110,101,120,112,101,99,116,101,100,32,82,101,115,112,111,110,115,101>>
    [] c = "PreHookError" -> <<80,114,101,45,104,111,111,107,32,69,114,114,111,114>>
    [] OTHER -> <<80,111,115,116,45,104,111,111,107,32,69,114,114,111,114>>]

IsSub(t, s) == \/ t = <<>>
               \/ \E k \in 1..(Len(s) - Len(t) + 1) : SubSeq(s, k, k + Len(t) - 1) = t
Dec(n) == <<48 + (n \div 100), 48 + ((n \div 10) % 10), 48 + (n % 10)>>
(* The texts the display has to include.                                   *)
Details(e) ==
  CASE e.cat \in Textual -> {e.msg}
    [] e.cat \in Transport -> {e.chain[1]}
    [] e.cat = "InvalidResponsePayload" -> {e.chain[1]} \cup {e.bytesdbg}
    [] e.cat = "ErrorResponse" -> {Dec(e.status), e.value} \cup {e.headers[k][1] : k \in 1..Len(e.headers)}
    [] OTHER -> {Dec(e.status)} \cup {e.headers[k][1] : k \in 1..Len(e.headers)}
DisplayOK(e, d) == StartsWith(d, Label[e.cat]) /\ \A t \in Details(e) : IsSub(t, d)

(* Each cause once and in order: the rest of the alternate form is the     *)
(* causes with nothing but punctuation around them.                        *)
Wordy(c) == c \in 48..57 \/ c \in 65..90 \/ c \in 97..122 \/ c >= 128
RECURSIVE Lists(_, _)
Lists(r, cs) ==
  IF cs = <<>> THEN \A k \in 1..Len(r) : ~Wordy(r[k])
  ELSE \E k \in 1..(Len(r) - Len(cs[1]) + 1) :
         /\ \A j \in 1..(k - 1) : ~Wordy(r[j])
         /\ SubSeq(r, k, k + Len(cs[1]) - 1) = cs[1]
         /\ Lists(SubSeq(r, k + Len(cs[1]), Len(r)), Tail(cs))
AlternateOK(e, d, a) == StartsWith(a, d) /\ Lists(SubSeq(a, Len(d) + 1, Len(a)), Causes(e))

(* --- the machine -----------------------------------------------------------*)
VARIABLE err
Views == {"status", "display", "alternate", "debug", "source"}
Do(op) == err' = IF op = "untyped" THEN Untyped(err) ELSE err
=============================================================================
