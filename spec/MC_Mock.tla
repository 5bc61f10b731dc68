------------------------------- MODULE MC_Mock --------------------------------
(***************************************************************************)
(* A client calls an operation with some arguments, a mock for the same or *)
(* another operation looks at the request with some expectations.  All     *)
(* combinations over small templates and values.                           *)
(***************************************************************************)
EXTENDS Mock, Json, TLC
VARIABLES cop, args, mop, exps, pc, seen
vars == <<cop, args, mop, exps, pc, seen>>
A == <<97>>  B == <<98>>  P == <<112>>  Q == <<113>>
Sl(s) == <<SLASH>> \o s
Br(n) == <<LB>> \o n \o <<RB>>
T1 == Sl(A) \o Sl(Br(P))              \* /a/{p}
T2 == Sl(A) \o Sl(A)                  \* /a/a
T3 == Sl(A) \o Sl(Br(P)) \o Sl(A)     \* /a/{p}/a
T4 == Sl(A) \o Sl(<<97,45>> \o Br(P)) \* /a/a-{p}
T5 == Sl(Br(P)) \o Sl(Br(Q))          \* /{p}/{q}
G == <<71,69,84>>  D == <<68,69,76>>  \* GET DEL
Ops == {[method |-> m, path |-> t] : m \in {G, D}, t \in {T1, T2, T3, T4, T5}}
Values == {A, B, <<97,45,97>>, <<97,47,98>>, <<>>}      \* a  b  a-a  a/b  empty
None == [none |-> TRUE]
QN == <<120>>      \* the query parameter x
(* what the client of the specification sends *)
EncC(c) == IF c = SLASH THEN <<37,50,70>> ELSE <<c>>
Enc(v) == Concat([k \in 1..Len(v) |-> EncC(v[k])])
Build(op, a) == LET cs == Parse(op.path).comps
                IN [method |-> op.method, path |-> Concat([k \in 1..Len(cs) |-> IF cs[k].k = "lit" THEN cs[k].s ELSE Enc(a.p[cs[k].s])]),
                    pairs |-> IF a.q = <<>> THEN <<>> ELSE << <<QN, a.q[1]>> >>, bytes |-> <<>>, jsonok |-> FALSE, json |-> <<>>]
ParamsOf(op) == Range(Names(Parse(op.path)))
ArgsOf(op) == [p : [ParamsOf(op) -> Values], q : {<<>>} \cup {<<v>> : v \in {A, B, <<>>}}]
E(part, n, k, s) == [part |-> part, n |-> n, k |-> k, s |-> s, v |-> <<>>]
ExpsOf(op) == UNION {{ps \o qs : ps \in {<<>>} \cup {<<E("path", n, "text", v)>> : n \in ParamsOf(op), v \in Values}} :
                     qs \in {<<>>, <<E("query", QN, "absent", <<>>)>>} \cup {<<E("query", QN, "text", v)>> : v \in {A, <<>>}}}
KInit == /\ cop \in Ops /\ mop \in Ops /\ args \in ArgsOf(cop) /\ exps = <<>> /\ pc = "mock" /\ seen = None
Expect == /\ pc = "mock" /\ exps' \in ExpsOf(mop) /\ pc' = "call" /\ UNCHANGED <<cop, args, mop, seen>>
CallIt == /\ pc = "call" /\ seen' = [accept |-> Accepts(mop, exps, Build(cop, args))] /\ pc' = "done"
          /\ UNCHANGED <<cop, args, mop, exps>>
KNext == Expect \/ CallIt \/ (pc = "done" /\ UNCHANGED vars)

Want(e) == IF e.part = "path" THEN args.p[e.n] = e.s
           ELSE IF e.k = "absent" THEN args.q = <<>> ELSE args.q = <<e.s>>
AllMet == \A k \in 1..Len(exps) : Want(exps[k])
(* The mock of the called operation answers exactly if the arguments are the *)
(* expected ones.                                                            *)
Exact == pc = "done" /\ mop = cop => (seen.accept <=> AllMet)
OtherVerb == pc = "done" /\ mop.method # cop.method => ~seen.accept
(* Another path: one that has another number of segments, or other literal   *)
(* text.                                                                      *)
OtherPath == pc = "done" /\ Len(Split(mop.path, SLASH)) # Len(Split(cop.path, SLASH)) => ~seen.accept
LiteralCounts == pc = "done" /\ mop.path = T2 /\ cop.path = T4 => ~seen.accept
=============================================================================
