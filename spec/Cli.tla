--------------------------------- MODULE Cli ----------------------------------
(***************************************************************************)
(* The generated command line (C18).  An operation op has, besides what    *)
(* Request and Call need:                                                  *)
(*   params[k].flag, .ty, .first   name of the flag, type, required for    *)
(*                                 the first page                          *)
(*   paged, struct                 has pages; the body is a struct         *)
(*   members : Seq([n, flag, req, scalar, ty])   the members of the body   *)
(*   bodyty                        type of the body                        *)
(* The user gives argv, a sequence of [f |-> flag, s |-> text], and a file *)
(* for --json-body: [ok |-> it is there and is JSON, json].                *)
(***************************************************************************)
EXTENDS Call, Request

VARIABLES op, argv, file, stop, answers,   \* given
          phase, buf, tok, left, reqs, told, over
kvars == <<op, argv, file, stop, answers, phase, buf, tok, left, reqs, told, over>>

JSONBODY == <<106,115,111,110,45,98,111,100,121>>
TEMPLATE == JSONBODY \o <<45,116,101,109,112,108,97,116,101>>
PAGETOKEN == <<112,97,103,101,95,116,111,107,101,110>>
HELP == <<104,101,108,112>>
LIMIT == <<108,105,109,105,116>>
ITEMS == <<105,116,101,109,115>>
NEXTPAGE == <<110,101,120,116,95,112,97,103,101>>
TRUETEXT == <<116,114,117,101>>
FALSETEXT == <<102,97,108,115,101>>

(* --- the flags of a command ------------------------------------------------ *)
Typed(o) == o.body.k \in {"json", "form"}
HasFlag(o, k) == ~(o.paged /\ o.params[k].in = "query" /\ o.params[k].n = PAGETOKEN)
ParamFlags(o) == {k \in 1..Len(o.params) : HasFlag(o, k)}
MemberFlags(o) == IF Typed(o) /\ o.struct
                  THEN {j \in 1..Len(o.members) : o.members[j].scalar /\ \A k \in ParamFlags(o) : o.params[k].flag # o.members[j].flag}
                  ELSE {}
(* The body cannot be put together from flags. *)
JsonNeeded(o) == Typed(o) /\ (~o.struct \/ \E j \in 1..Len(o.members) : o.members[j].req /\ j \notin MemberFlags(o))
ParamNeeded(p) == p.req \/ p.first
Flags(o) ==
  {[f |-> o.params[k].flag, req |-> ParamNeeded(o.params[k])] : k \in ParamFlags(o)}
  \cup {[f |-> o.members[j].flag, req |-> FALSE] : j \in MemberFlags(o)}     \* (needed unless there is a whole body)
  \cup (IF Typed(o) THEN {[f |-> JSONBODY, req |-> JsonNeeded(o)], [f |-> TEMPLATE, req |-> FALSE]} ELSE {})

(* --- texts ------------------------------------------------------------------ *)
Digs(s) == s # <<>> /\ \A k \in 1..Len(s) : s[k] \in 48..57
IntText(s) == s # <<>> /\ (Digs(s) \/ (s[1] = 45 /\ Digs(Tail(s))))
NumText(s) == LET t == IF s # <<>> /\ s[1] = 45 THEN Tail(s) ELSE s
              IN Digs(t) \/ (HasByte(t, DOT) /\ Digs(Before(t, DOT)) /\ Digs(After(t, DOT)))
Reads(ty, s) ==
  CASE ty.t = "str" -> TRUE
    [] ty.t = "int" -> IntText(s) /\ IntLE(ty.lo, s) /\ IntLE(s, ty.hi)
    [] ty.t = "num" -> NumText(s)
    [] ty.t = "bool" -> s \in {TRUETEXT, FALSETEXT}
    [] ty.t = "enum" -> \E j \in 1..Len(ty.of) : ty.of[j] = s
    [] ty.t = "uuid" -> UuidText(s)
    [] OTHER -> TRUE
Leaf(k, s) == [k |-> k, s |-> s, a |-> <<>>, o |-> <<>>]
TreeOf(ty, s) == Leaf(CASE ty.t \in {"int", "num"} -> "num" [] ty.t = "bool" -> "bool" [] OTHER -> "str", s)

(* --- what the user gives ------------------------------------------------------ *)
Gives(a, f) == \E k \in 1..Len(a) : a[k].f = f
ValueOf(a, f) == a[CHOOSE k \in 1..Len(a) : a[k].f = f].s
Known_(o, f) == \E x \in Flags(o) : x.f = f
Good(o, x) ==
  /\ x.f = TEMPLATE => x.s = <<>>                                        \* takes no value
  /\ \A k \in ParamFlags(o) : o.params[k].flag = x.f => Reads(o.params[k].ty, x.s)
  /\ \A j \in MemberFlags(o) : o.members[j].flag = x.f => Reads(o.members[j].ty, x.s)
Accepts(o, a) ==
  /\ \A k \in 1..Len(a) : Known_(o, a[k].f) /\ Good(o, a[k])
  /\ \A k, j \in 1..Len(a) : a[k].f = a[j].f => k = j
  /\ \A x \in Flags(o) : x.req => Gives(a, x.f)
  /\ \A j \in MemberFlags(o) : o.members[j].req => Gives(a, o.members[j].flag) \/ Gives(a, JSONBODY)

Nothing == [k |-> "absent", s |-> <<>>, a |-> <<>>, m |-> <<>>]
Given(s) == [Nothing EXCEPT !.k = "text", !.s = s]
ArgsOf(o, a) == [k \in 1..Len(o.params) |->
                  IF k \in ParamFlags(o) /\ Gives(a, o.params[k].flag) THEN Given(ValueOf(a, o.params[k].flag)) ELSE Nothing]

RECURSIVE BytesLess(_, _)
BytesLess(x, y) == IF y = <<>> THEN FALSE ELSE IF x = <<>> THEN TRUE
                   ELSE IF x[1] = y[1] THEN BytesLess(Tail(x), Tail(y)) ELSE x[1] < y[1]
GivenMembers(o, a) == {j \in MemberFlags(o) : Gives(a, o.members[j].flag)}
(* The file's value with the members given as flags in place of its own.     *)
Overlay(o, a, base) ==
  LET mine == {<<o.members[j].n, TreeOf(o.members[j].ty, ValueOf(a, o.members[j].flag))>> : j \in GivenMembers(o, a)}
      kept == {m \in Range(base.o) : \A x \in mine : x[1] # m[1]}
  IN [Leaf("obj", <<>>) EXCEPT !.o = SetToSortSeq(mine \cup kept, LAMBDA x, y : BytesLess(x[1], y[1]))]
FileOK(o, f) == f.ok /\ Conforms(o.bodyty, f.json)
BodyTree(o, a, f) ==
  LET base == IF Gives(a, JSONBODY) THEN Norm(o.bodyty, f.json) ELSE Leaf("obj", <<>>)
  IN IF o.struct THEN Overlay(o, a, base) ELSE base
BodyOf(o, a, f) ==
  LET none == [k |-> "none", json |-> Leaf("null", <<>>), pairs |-> <<>>, bytes |-> <<>>]
  IN CASE o.body.k = "json" -> [none EXCEPT !.k = "json", !.json = BodyTree(o, a, f)]
       [] o.body.k = "form" -> LET t == BodyTree(o, a, f)
                               IN [none EXCEPT !.k = "form", !.pairs = [k \in 1..Len(t.o) |-> <<t.o[k][1], t.o[k][2].s>>]]
       [] OTHER -> none
(* Raw bodies cannot be given on the command line: the call is refused.       *)
Callable(o, a) == o.body.k \in {"none", "json", "form"} /\ HeaderArgsValid(o, ArgsOf(o, a))
TheCall(o, a, f, t) ==
  [args |-> [k \in 1..Len(o.params) |->
               LET p == o.params[k]  x == ArgsOf(o, a)[k]
               IN IF ~o.paged \/ p.in # "query" THEN x
                  ELSE IF p.n = PAGETOKEN THEN (IF t = <<>> THEN Nothing ELSE Given(t[1]))
                  ELSE IF p.n # LIMIT /\ t # <<>> THEN Nothing ELSE x],
   body |-> BodyOf(o, a, f)]

(* --- the machine ------------------------------------------------------------- *)
NoLimit == 1000000
RECURSIVE ToNat(_)
ToNat(s) == IF s = <<>> THEN 0 ELSE (10 * ToNat(SubSeq(s, 1, Len(s) - 1))) + (s[Len(s)] - 48)
LimitOf(o, a) == LET ks == {k \in ParamFlags(o) : o.params[k].n = LIMIT /\ o.params[k].in = "query"}
                 IN IF ks = {} THEN NoLimit
                    ELSE LET f == o.params[CHOOSE k \in ks : TRUE].flag
                         IN IF Gives(a, f) THEN (IF Len(ValueOf(a, f)) > 6 THEN NoLimit ELSE ToNat(ValueOf(a, f))) ELSE NoLimit

Start == /\ phase = "parse" /\ buf = <<>> /\ tok = <<>> /\ left = 0 /\ reqs = <<>> /\ told = <<>> /\ over = 0
givens == <<op, argv, file, stop, answers>>
Move(p) == phase' = p
ParseBad == phase = "parse" /\ ~Accepts(op, argv) /\ Move("refused") /\ UNCHANGED <<givens, buf, tok, left, reqs, told, over>>
ParseOK == /\ phase = "parse" /\ Accepts(op, argv)
           /\ Move(IF Typed(op) /\ Gives(argv, JSONBODY) /\ ~FileOK(op, file) THEN "unreadable" ELSE "override")
           /\ UNCHANGED <<givens, buf, tok, left, reqs, told, over>>
Override == /\ phase = "override" /\ over' = over + 1
            /\ Move(IF stop THEN "stopped" ELSE IF op.paged THEN "list" ELSE "call")
            /\ UNCHANGED <<givens, buf, tok, left, reqs, told>>
Tell(c) == told' = Append(told, c)
Failure(k, st) == [n |-> "error", k |-> k, st |-> st]
(* a single call *)
CallSend == /\ phase = "call" /\ Callable(op, argv)
            /\ reqs' = Append(reqs, TheCall(op, argv, file, <<>>)) /\ Move("answered")
            /\ UNCHANGED <<givens, buf, tok, left, told, over>>
CallRefused == /\ phase = "call" /\ ~Callable(op, argv)
               /\ Tell(Failure("InvalidRequest", 0)) /\ Move("failed")
               /\ UNCHANGED <<givens, buf, tok, left, reqs, over>>
Report == /\ phase = "answered"
          /\ LET c == Classify(op, answers[1])
             IN IF c.k = "ok"
                THEN /\ Tell(IF c.value.k = "json" THEN [n |-> "success_item", v |-> c.value.v, st |-> c.status] ELSE [n |-> "success_no_item", st |-> c.status])
                     /\ Move("fine")
                ELSE Tell(Failure(c.k, c.st)) /\ Move("failed")
          /\ UNCHANGED <<givens, buf, tok, left, reqs, over>>
(* pages *)
ListStart == /\ phase = "list" /\ Tell([n |-> "list_start"]) /\ Move("pages") /\ left' = LimitOf(op, argv)
             /\ UNCHANGED <<givens, buf, tok, reqs, over>>
ListRefused == /\ phase = "pages" /\ reqs = <<>> /\ ~Callable(op, argv)
               /\ Tell([Failure("InvalidRequest", 0) EXCEPT !.n = "list_end_error"]) /\ Move("failed")
               /\ UNCHANGED <<givens, buf, tok, left, reqs, over>>
Due == phase = "pages" /\ buf = <<>> /\ left > 0 /\ Callable(op, argv) /\ (reqs = <<>> \/ tok # <<>>)
Fetch == /\ Due
         /\ reqs' = Append(reqs, TheCall(op, argv, file, tok))
         /\ LET c == Classify(op, answers[Len(reqs) + 1])
            IN IF c.k = "ok"
               THEN LET n == Member(c.value.v, NEXTPAGE)
                    IN /\ buf' = Member(c.value.v, ITEMS).a
                       /\ tok' = IF n.k = "str" THEN <<n.s>> ELSE <<>>
                       /\ UNCHANGED <<phase, told>>
               ELSE /\ Move("failing") /\ buf' = << [k |-> c.k, st |-> c.st] >> /\ UNCHANGED <<tok, told>>
         /\ UNCHANGED <<givens, left, over>>
ListFailed == /\ phase = "failing" /\ Tell([Failure(buf[1].k, buf[1].st) EXCEPT !.n = "list_end_error"]) /\ Move("failed")
              /\ UNCHANGED <<givens, buf, tok, left, reqs, over>>
ListItem == /\ phase = "pages" /\ buf # <<>> /\ left > 0
            /\ Tell([n |-> "list_item", v |-> buf[1]]) /\ buf' = Tail(buf) /\ left' = left - 1
            /\ UNCHANGED <<givens, phase, tok, reqs, over>>
ListEnd == /\ phase = "pages" /\ (left = 0 \/ (buf = <<>> /\ reqs # <<>> /\ tok = <<>>))
           /\ Tell([n |-> "list_end_success"]) /\ Move("fine")
           /\ UNCHANGED <<givens, buf, tok, left, reqs, over>>
Finished == {"refused", "unreadable", "stopped", "fine", "failed"}
KNext == \/ ParseBad \/ ParseOK \/ Override \/ CallSend \/ CallRefused \/ Report
         \/ ListStart \/ ListRefused \/ Fetch \/ ListFailed \/ ListItem \/ ListEnd

(* --- what the user may rely on --------------------------------------------------- *)
Silent == phase \in {"refused", "unreadable", "stopped"} => reqs = <<>> /\ told = <<>>
Terminal == {"success_item", "success_no_item", "error", "list_end_success", "list_end_error"}
ReportedOnce == phase \in {"fine", "failed"} =>
                  /\ told # <<>> /\ told[Len(told)].n \in Terminal
                  /\ \A k \in 1..(Len(told) - 1) : told[k].n \notin Terminal
                  /\ (phase = "fine") = (told[Len(told)].n \in {"success_item", "success_no_item", "list_end_success"})
OverriddenFirst == (reqs # <<>> \/ told # <<>>) => over = 1
(* Every flag given is in the first request, as what it is called.              *)
NothingDropped ==
  reqs # <<>> =>
    /\ \A k \in ParamFlags(op) : Gives(argv, op.params[k].flag) => reqs[1].args[k] = Given(ValueOf(argv, op.params[k].flag))
    /\ \A j \in GivenMembers(op, argv) :
         CASE op.body.k = "json" -> Member(reqs[1].body.json, op.members[j].n) = TreeOf(op.members[j].ty, ValueOf(argv, op.members[j].flag))
           [] OTHER -> << op.members[j].n, ValueOf(argv, op.members[j].flag) >> \in Range(reqs[1].body.pairs)
NothingAdded ==
  reqs # <<>> =>
    /\ \A k \in 1..Len(op.params) : reqs[1].args[k].k # "absent" => Gives(argv, op.params[k].flag)
    /\ ~Typed(op) \/ Gives(argv, JSONBODY) \/
         (op.body.k = "json" => \A m \in Range(reqs[1].body.json.o) : \E j \in GivenMembers(op, argv) : op.members[j].n = m[1])
Complete == reqs # <<>> => /\ \A k \in ParamFlags(op) : op.params[k].req => reqs[1].args[k].k # "absent"
                           /\ op.body.k = "json" => Conforms(op.bodyty, reqs[1].body.json)
AtMostLimit == Len(SelectSeq(told, LAMBDA c : c.n = "list_item")) <= LimitOf(op, argv)
=============================================================================
