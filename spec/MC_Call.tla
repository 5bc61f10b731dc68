------------------------------- MODULE MC_Call ------------------------------
(***************************************************************************)
(* Design check of Call: every hook configuration against a few            *)
(* operations, and every declared-response set against every class of      *)
(* answer.  The response sets are written to scen.json and drive the real  *)
(* generator and clients.                                                  *)
(***************************************************************************)
EXTENDS Call, Json
CONSTANT Mode

Str == [t |-> "str"]
AnyTy == [t |-> "any"]
Code(n) == [k |-> "code", n |-> n]
Rng(n) == [k |-> "range", n |-> n]
Def == [k |-> "default", n |-> 0]
Kinds == {"json", "none", "raw"}
En(st, kind) == [st |-> st, kind |-> kind, ty |-> IF kind = "json" THEN Str ELSE AnyTy]

(* Response sets the generator supports: one type for all successes, one   *)
(* for all errors; a default entry belongs to both.                        *)
Set2Seq(s) == SetToSeq(s)
Sets ==
  LET succ == {Code(200), Code(201), Rng(2)}
      errs == {Code(404), Rng(4), Code(500), Rng(5)}
      junk == {{}, {Code(302)}, {Rng(1), Rng(3)}}
  IN {[s |-> s, e |-> e, sk |-> sk, ek |-> ek, d |-> FALSE, j |-> j] :
        s \in SUBSET succ, e \in SUBSET errs, sk \in Kinds, ek \in Kinds, j \in junk}
     \cup {[s |-> s, e |-> e, sk |-> sk, ek |-> sk, d |-> TRUE, j |-> {}] :
        s \in SUBSET succ, e \in SUBSET errs, sk \in Kinds}
Resp(x) == Set2Seq({En(st, x.sk) : st \in x.s} \cup {En(st, x.ek) : st \in x.e} \cup {En(st, "none") : st \in x.j})
           \o (IF x.d THEN <<En(Def, x.sk)>> ELSE <<>>)

JStr == [k |-> "str", s |-> <<97>>, a |-> <<>>, o |-> <<>>]
JNum == [k |-> "num", s |-> <<49>>, a |-> <<>>, o |-> << << <<49>>, [k |-> "null"] >> >>]
Ans(st, body, c, ok, v) == [k |-> "resp", status |-> st, headers |-> << <<<<104>>, <<st>>>> >>, body |-> body,
                            complete |-> c, jsonok |-> ok, json |-> v]
Bodies(st) == {Ans(st, <<34, 97, 34>>, TRUE, TRUE, JStr), Ans(st, <<49>>, TRUE, TRUE, JNum),
               Ans(st, <<34>>, TRUE, FALSE, JNum), Ans(st, <<34>>, FALSE, FALSE, JNum)}
Stati == IF Mode = "some" THEN {200, 299, 302, 404, 500, 600} ELSE {100, 101, 200, 201, 204, 299, 301, 302, 304, 400, 404, 499, 500, 503, 599, 600}
Answers == UNION {Bodies(st) : st \in Stati} \cup {[k |-> "fail"]}

B == BOOLEAN
Cfgs == {[pre |-> a, preA |-> b, post |-> c, postA |-> d, preAFail |-> e /\ b, postAFail |-> f /\ d] :
           a \in B, b \in B, c \in B, d \in B, e \in B, f \in B}
NoCfg == [pre |-> FALSE, preA |-> FALSE, post |-> FALSE, postA |-> FALSE, preAFail |-> FALSE, postAFail |-> FALSE]
Op(r, ws) == [responses |-> r, ws |-> ws]
FewOps == {Op(<<En(Code(200), "json"), En(Rng(4), "json")>>, FALSE), Op(<<En(Def, "upgrade")>>, TRUE), Op(<<>>, FALSE)}
Calls ==
  IF Mode = "hooks"
  THEN {[valid |-> v, cfg |-> g, op |-> o, ans |-> a] :
          v \in B, g \in Cfgs, o \in FewOps,
          a \in {x \in Answers : x.k = "fail" \/ x.status \in {101, 200, 404, 500}}}
  ELSE {[valid |-> TRUE, cfg |-> NoCfg, op |-> Op(Resp(x), FALSE), ans |-> a] :
          x \in {y \in Sets : Mode = "all" \/ (y.j = {} /\ (y.d \/ y.ek # "raw"))}, a \in Answers}
MInit == Init(Calls)
ASSUME JsonSerialize("scen.json", SetToSeq({[r |-> Resp(x)] : x \in Sets}))
ASSUME JsonSerialize("cfgs.json", SetToSeq(Cfgs))

(* A call that was started is always finished. *)
Terminates == <>(pc = 99)
Spec == MInit /\ [][Next]_cvars /\ WF_cvars(Next)
=============================================================================
