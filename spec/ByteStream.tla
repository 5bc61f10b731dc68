----------------------------- MODULE ByteStream ------------------------------
(***************************************************************************)
(* A raw response body on its way from the server to the consumer of the   *)
(* client's byte stream (C07).                                             *)
(*                                                                         *)
(* plan = [full   : the body,                                              *)
(*         cut    : number of body bytes the server puts on the wire,      *)
(*         fate   : "complete" : the body is finished properly             *)
(*                  "cut"      : the connection ends in the middle         *)
(*                  "bad"      : the framing becomes malformed             *)
(*                  "reset"    : the connection is reset, which may lose   *)
(*                               bytes that were already on the wire,      *)
(*         gated  : the server sends nothing of the body before the        *)
(*                  consumer has been handed the stream]                   *)
(***************************************************************************)
EXTENDS Bytes

VARIABLES plan, wire, over, handed, got, end
bvars == <<plan, wire, over, handed, got, end>>

Fates == {"complete", "cut", "bad", "reset"}
Init(plans) == /\ plan \in plans
               /\ wire = 0            \* body bytes the server has sent
               /\ over = FALSE        \* the server is done
               /\ handed = FALSE      \* the caller holds the stream
               /\ got = <<>>          \* what the stream has yielded
               /\ end = "no"
(* --- server ----------------------------------------------------------------*)
Send == /\ ~over /\ wire < plan.cut
        /\ (plan.gated => handed)
        /\ \E n \in 1..(plan.cut - wire) : wire' = wire + n
        /\ UNCHANGED <<plan, over, handed, got, end>>
Finish == /\ ~over /\ wire = plan.cut
          /\ (plan.gated => handed)
          /\ over' = TRUE
          /\ UNCHANGED <<plan, wire, handed, got, end>>
(* --- client ----------------------------------------------------------------*)
(* Needs the head only. *)
Hand == /\ ~handed /\ handed' = TRUE /\ UNCHANGED <<plan, wire, over, got, end>>
Yield(n) == /\ handed /\ end = "no" /\ n >= 1
            /\ Len(got) + n <= wire
            /\ got' = got \o SubSeq(plan.full, Len(got) + 1, Len(got) + n)
            /\ UNCHANGED <<plan, wire, over, handed, end>>
CleanEnd == /\ handed /\ end = "no" /\ over /\ plan.fate = "complete" /\ got = plan.full
            /\ end' = "clean" /\ UNCHANGED <<plan, wire, over, handed, got>>
ErrorEnd == /\ handed /\ end = "no" /\ over /\ plan.fate # "complete"
            /\ (plan.fate # "reset" => Len(got) = plan.cut)
            /\ end' = "error" /\ UNCHANGED <<plan, wire, over, handed, got>>
Next == Send \/ Finish \/ Hand \/ (\E n \in 1..3 : Yield(n)) \/ CleanEnd \/ ErrorEnd
Spec(plans) == Init(plans) /\ [][Next]_bvars /\ WF_bvars(Next)

(* --- what the consumer may rely on -----------------------------------------*)
InOrder == IsPrefix(got, plan.full)
CleanMeansAll == end = "clean" => got = plan.full /\ plan.fate = "complete"
NothingLost == (end = "error" /\ plan.fate \in {"cut", "bad"}) => got = SubSeq(plan.full, 1, plan.cut)
NotAhead == Len(got) <= wire
Ends == <>(end # "no")
=============================================================================
