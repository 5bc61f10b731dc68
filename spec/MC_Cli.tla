-------------------------------- MODULE MC_Cli ---------------------------------
(* All flag subsets with good and bad values, repeated and unknown flags, on  *)
(* small operations; some of these are replayed through real commands.        *)
EXTENDS Cli, Json

T(t) == [t |-> t]
Byte == [t |-> "int", lo |-> <<48>>, hi |-> <<50,53,53>>]
NZ == [t |-> "int", lo |-> <<49>>, hi |-> <<52,50,57,52,57,54,55,50,57,53>>]
A == <<97>>  B == <<98>>  C == <<99>>  P == <<112>>  Q == <<113>>
Prm(i, n, req, ty, first) == [n |-> n, lname |-> n, in |-> i, req |-> req, flag |-> n, ty |-> ty, first |-> first]
Mem(n, req, scalar, ty) == [n |-> n, flag |-> n, req |-> req, scalar |-> scalar, ty |-> ty]
FieldOf(m) == [n |-> m.n, ty |-> m.ty, req |-> m.req]
StructOf(ms) == [t |-> "struct", fields |-> [k \in 1..Len(ms) |-> FieldOf(ms[k])]]
Arr == [t |-> "arr", items |-> T("str")]
NoBody == [k |-> "none", ct |-> <<>>]
PageTy == [t |-> "struct", fields |-> << [n |-> ITEMS, ty |-> Arr, req |-> TRUE], [n |-> NEXTPAGE, ty |-> T("str"), req |-> FALSE] >>]
Resp(ty) == << [st |-> [k |-> "code", n |-> 200], kind |-> "json", ty |-> ty], [st |-> [k |-> "range", n |-> 4], kind |-> "json", ty |-> T("any")] >>
Op(ps, body, ms, struct, paged) ==
  [path |-> <<SLASH>>, method |-> <<>>, ws |-> FALSE, params |-> ps, body |-> body, accept |-> TRUE, acceptv |-> <<>>,
   responses |-> IF paged THEN Resp(PageTy) ELSE Resp(T("any")), paged |-> paged, struct |-> struct, members |-> ms,
   bodyty |-> IF struct THEN StructOf(ms) ELSE Arr]
Json_ == [k |-> "json", ct |-> <<>>]  Form == [k |-> "form", ct |-> <<>>]
Ops == {
  Op(<<Prm("path", P, TRUE, T("str"), FALSE), Prm("query", Q, FALSE, Byte, FALSE), Prm("query", B, TRUE, T("bool"), FALSE)>>, NoBody, <<>>, FALSE, FALSE),
  Op(<<Prm("query", Q, FALSE, T("str"), FALSE)>>, Json_, <<Mem(A, TRUE, TRUE, Byte), Mem(B, FALSE, TRUE, T("str"))>>, TRUE, FALSE),
  Op(<<Prm("query", A, FALSE, T("str"), FALSE)>>, Json_, <<Mem(A, FALSE, TRUE, Byte), Mem(B, TRUE, FALSE, Arr), Mem(C, FALSE, TRUE, T("bool"))>>, TRUE, FALSE),
  Op(<<>>, Form, <<Mem(A, TRUE, TRUE, T("str")), Mem(B, FALSE, TRUE, Byte)>>, TRUE, FALSE),
  Op(<<Prm("query", Q, TRUE, Byte, FALSE)>>, Json_, <<>>, FALSE, FALSE),
  Op(<<Prm("path", P, TRUE, T("str"), FALSE)>>, [k |-> "text", ct |-> <<>>], <<>>, FALSE, FALSE),
  Op(<<Prm("query", LIMIT, FALSE, NZ, FALSE), Prm("query", PAGETOKEN, FALSE, T("str"), FALSE), Prm("query", Q, FALSE, T("str"), TRUE)>>, NoBody, <<>>, FALSE, TRUE),
  Op(<<Prm("query", LIMIT, FALSE, NZ, FALSE), Prm("query", PAGETOKEN, FALSE, T("str"), FALSE)>>, Json_, <<Mem(A, TRUE, TRUE, Byte)>>, TRUE, TRUE)}

(* Texts to give a flag. *)
One == <<49>>  Two == <<50>>
Texts(f) == IF f = LIMIT THEN {One, Two, <<48>>} ELSE IF f \in {JSONBODY, TEMPLATE, PAGETOKEN} THEN {<<>>} ELSE {One, TRUETEXT, <<>>}
AllFlags(o) == {x.f : x \in Flags(o)} \cup (IF o.paged THEN {PAGETOKEN} ELSE {})
Pick(S) == SetToSeq(S)
Argchoices(o) == LET fs == Pick(AllFlags(o))
                  opts(f) == {<<>>} \cup {<<[f |-> f, s |-> t]>> : t \in Texts(f)}
              IN FoldLeft(LAMBDA acc, f : {a \o b : a \in acc, b \in opts(f)}, {<<>>}, fs)
Extra(o) == {<<>>, <<[f |-> <<122>>, s |-> One]>>}         \* an unknown flag
Twice(a) == {a} \cup {<<a[1]>> \o a : k \in (IF a = <<>> THEN {} ELSE {1})}
Argvs(o) == UNION {Twice(a) : a \in Argchoices(o)} \cup {a \o b : a \in {x \in Argchoices(o) : Len(x) <= 1}, b \in Extra(o)}
(* Files for --json-body. *)
N(x) == [Leaf("num", x) EXCEPT !.o = << <<x, Leaf("null", <<>>)>> >>]
Obj(ms) == [Leaf("obj", <<>>) EXCEPT !.o = ms]
Files == {[ok |-> FALSE, json |-> Leaf("null", <<>>)], [ok |-> TRUE, json |-> Obj(<<>>)],
          [ok |-> TRUE, json |-> Obj(<< <<A, N(<<55>>)>>, <<B, Leaf("str", <<122>>)>> >>)],
          [ok |-> TRUE, json |-> Obj(<< <<A, N(<<55>>)>>, <<B, [Leaf("arr", <<>>) EXCEPT !.a = <<Leaf("str", A)>>]>> >>)],
          [ok |-> TRUE, json |-> [Leaf("arr", <<>>) EXCEPT !.a = <<Leaf("str", A)>>]]}
FilesFor(a) == IF Gives(a, JSONBODY) THEN Files ELSE {[ok |-> FALSE, json |-> Leaf("null", <<>>)]}
(* Answers. *)
Ans(st, j) == [k |-> "resp", status |-> st, headers |-> <<>>, body |-> <<>>, complete |-> TRUE, jsonok |-> TRUE, json |-> j]
Str(s) == Leaf("str", s)
PageJ(items, next) == Obj(<< <<ITEMS, [Leaf("arr", <<>>) EXCEPT !.a = items]>> >> \o (IF next = <<>> THEN <<>> ELSE << <<NEXTPAGE, Str(next)>> >>))
Single == {<<Ans(200, Str(A))>>, <<Ans(404, Str(A))>>, <<Ans(500, Str(A))>>, <<[k |-> "fail"]>>}
Paged == {<<Ans(200, PageJ(<<Str(A), Str(B)>>, <<116>>)), Ans(200, PageJ(<<Str(C)>>, <<>>))>>, <<Ans(200, PageJ(<<>>, <<116>>)), Ans(404, Str(A))>>, <<Ans(500, Str(A))>>}

CInit == /\ op \in Ops /\ argv \in Argvs(op) /\ file \in FilesFor(argv) /\ stop \in {FALSE}
         /\ answers \in (IF op.paged THEN Paged ELSE Single)
         /\ Start
         /\ call = 0 /\ pc = 0 /\ hooks = 0 /\ sent = 0 /\ got = 0 /\ out = 0
CNext == \/ KNext /\ UNCHANGED cvars
         \/ phase \in Finished /\ UNCHANGED <<kvars, cvars>>
(* With every required flag and nothing wrong the command is accepted. *)
MinimalAccepted ==
  phase = "refused" =>
    \/ \E k \in 1..Len(argv) : ~Known_(op, argv[k].f) \/ ~Good(op, argv[k]) \/ \E j \in 1..(k - 1) : argv[j].f = argv[k].f
    \/ \E k \in ParamFlags(op) : (op.params[k].req \/ op.params[k].first) /\ ~Gives(argv, op.params[k].flag)
    \/ Typed(op) /\ ~Gives(argv, JSONBODY) /\ (~op.struct \/ \E j \in 1..Len(op.members) : op.members[j].req /\ ~(j \in MemberFlags(op) /\ Gives(argv, op.members[j].flag)))
ASSUME JsonSerialize("scen.json", SetToSeq({[op |-> o, argvs |-> SetToSeq({[a |-> x, ok |-> Accepts(o, x)] : x \in Argvs(o)})] : o \in Ops}))
=============================================================================
