---------------------------- MODULE MC_ErrorView -----------------------------
(* Bounded check of ErrorView and enumeration of view histories. *)
EXTENDS ErrorView, Json, TLC
CONSTANT MaxOps
VARIABLES hist, first
vars == <<err, hist, first>>

A == <<97>>
Chains == {<<>>, <<A>>, <<A, <<98>> >>, <<A, A, <<98, 99>> >>}
Errs == {e \in [cat : Categories, status : {0, 200, 404}, headers : {<<>>, << <<A, A>> >>}, msg : {<<>>, A},
               bytes : {<<>>, A}, bytesdbg : {A}, value : {A, Unit}, chain : Chains, traits : {A}, wstatus : {0, 500}] : WellFormed(e)}
Init == err \in Errs /\ hist = <<>> /\ first = err
Next == \E op \in Views \cup {"untyped"} :
          Len(hist) < MaxOps /\ Do(op) /\ hist' = Append(hist, op) /\ UNCHANGED first
Kept == /\ \A f \in (DOMAIN err) \ {"value"} : err[f] = first[f]
        /\ Status(err) = Status(first)
        /\ (("untyped" \notin {hist[k] : k \in 1..Len(hist)}) => err = first)
        /\ (err.value # first.value => err.cat = "ErrorResponse" /\ err.value = Unit)
StatusRight == Status(err) # 0 => err.cat \in Answering \/ err.wstatus # 0
(* The label of no category can be taken for another's. *)
LabelsDiffer == \A c, d \in Categories : c # d => ~StartsWith(Label[c] \o <<58>>, Label[d] \o <<58>>)
ListsMeansOnce == /\ Lists(<<58, 32, 97, 58, 32, 98>>, <<A, <<98>> >>)
                  /\ ~Lists(<<58, 32, 98, 58, 32, 97>>, <<A, <<98>> >>)
                  /\ ~Lists(<<58, 32, 97>>, <<A, <<98>> >>) /\ ~Lists(<<58, 32, 97, 58, 32, 97>>, <<A>>)
ASSUME LabelsDiffer /\ ListsMeansOnce
ASSUME JsonSerialize("scen.json", SetToSeq([1..MaxOps -> Views \cup {"untyped"}]))
=============================================================================
