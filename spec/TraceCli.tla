------------------------------- MODULE TraceCli -------------------------------
(***************************************************************************)
(* Recorded runs of real generated commands.  A session: base, version, op *)
(* (see Cli), argv, file, stop, answers and the events                     *)
(*   def(flags, listed, about)  the command's definition                   *)
(*   refused               the command line was not accepted               *)
(*   over                  the program's own override ran                  *)
(*   req                   the server received a request                   *)
(*   cb(n, ...)            an output callback                              *)
(*   end(ok) | panic       how execute returned                            *)
(***************************************************************************)
EXTENDS Cli, Json

CONSTANT Known
Trace == JsonDeserialize("trace.json")
VARIABLES i, l
S == Trace[i]
E == S.events[l]
More == l <= Len(S.events)
Deviation(k) == k \in Known /\ PrintT(<<"KNOWN", k>>)
Step_ == l' = l + 1 /\ UNCHANGED <<i, cvars>>

TInit == /\ i \in 1..Len(Trace) /\ l = 1
         /\ op = Trace[i].op /\ argv = Trace[i].argv /\ file = Trace[i].file /\ stop = Trace[i].stop /\ answers = Trace[i].answers
         /\ Start
         /\ call = 0 /\ pc = 0 /\ hooks = 0 /\ sent = 0 /\ got = 0 /\ out = 0

(* --- the definition ----------------------------------------------------------- *)
HelpOf(f) == LET ps == {op.params[k].desc : k \in {j \in ParamFlags(op) : op.params[j].flag = f}}
                 ms == {op.members[j].desc : j \in {k \in MemberFlags(op) : op.members[k].flag = f}}
             IN ps \cup ms
DefOK == /\ E.listed = 1 /\ E.about = op.about
         /\ Len(E.flags) = Cardinality(Flags(op))
         /\ {[f |-> E.flags[k].f, req |-> E.flags[k].req] : k \in 1..Len(E.flags)} = Flags(op)
         /\ \A k \in 1..Len(E.flags) : \A h \in HelpOf(E.flags[k].f) : E.flags[k].help = h
TDef == More /\ l = 1 /\ E.e = "def" /\ DefOK /\ Step_ /\ UNCHANGED kvars

(* --- the run ------------------------------------------------------------------- *)
Past(p) == l > 1 /\ phase = p
TRefused == More /\ l > 1 /\ E.e = "refused" /\ ParseBad /\ Step_
TParsed == More /\ l > 1 /\ E.e # "refused" /\ ParseOK /\ UNCHANGED <<i, l, cvars>>
TOver == More /\ E.e = "over" /\ Override /\ Step_
(* K3: with a whole body the members given as flags are not looked at.       *)
FilesBody == LET t == Norm(op.bodyty, file.json)
             IN [BodyOf(op, argv, file) EXCEPT !.json = IF op.body.k = "json" THEN t ELSE @,
                                               !.pairs = IF op.body.k = "form" THEN [k \in 1..Len(t.o) |-> <<t.o[k][1], t.o[k][2].s>>] ELSE @]
BodyGood(c) == \/ BodyOK(op, c.body, E)
               \/ /\ Typed(op) /\ op.struct /\ Gives(argv, JSONBODY) /\ GivenMembers(op, argv) # {} /\ "K3" \in Known
                  /\ BodyOK(op, FilesBody, E) /\ Deviation("K3")
TReq == /\ More /\ E.e = "req" /\ (CallSend \/ Fetch)
        /\ LET c == reqs'[Len(reqs')]
           IN /\ PathOK(S.base, op, c.args, E)
              /\ QueryOK(op, c.args, E)
              /\ HeadersOK(S.version, op, c.args, E)
              /\ BodyGood(c)
        /\ Step_
Same(e, c) == /\ e.n = c.n
              /\ c.n \in {"success_item", "list_item"} => e.v = c.v
              /\ c.n \in {"success_item", "success_no_item"} => e.st = c.st
              /\ c.n \in {"error", "list_end_error"} => e.k = c.k /\ e.st = c.st
TCb == /\ More /\ E.e = "cb"
       /\ \/ ListStart \/ ListItem \/ ListEnd \/ ListFailed \/ ListRefused
          \/ CallRefused /\ op.ek \notin {"raw", "upgrade"}
          \/ Report /\ (phase' = "fine" => op.sk \notin {"raw", "upgrade"}) /\ (phase' = "failed" => op.ek \notin {"raw", "upgrade"})
       /\ Same(E, told'[Len(told')])
       /\ Step_
TEnd == /\ More /\ E.e = "end" /\ phase \in {"unreadable", "stopped", "fine", "failed"} /\ E.ok = (phase = "fine")
        /\ Move("ended") /\ UNCHANGED <<givens, buf, tok, left, reqs, told, over>> /\ Step_

(* --- recorded findings: panics ---------------------------------------------------- *)
RawOK == LET c == Classify(op, answers[1]) IN IF c.k = "ok" THEN op.sk \in {"raw", "upgrade"} ELSE op.ek \in {"raw", "upgrade"}
LimitTyped == \A k \in 1..Len(op.params) : op.params[k].in = "query" /\ op.params[k].n = LIMIT => op.params[k].nz
Clash == \/ \E k \in ParamFlags(op) : op.params[k].flag \in {JSONBODY, TEMPLATE, HELP} /\ (op.params[k].flag = HELP \/ Typed(op))
         \/ \E j \in MemberFlags(op) : op.members[j].flag \in {JSONBODY, TEMPLATE, HELP}
TPanic == /\ More /\ E.e = "panic"
          /\ \/ phase = "unreadable" /\ Deviation("K6")
             \/ phase = "answered" /\ RawOK /\ Deviation("K8")
             \/ phase = "call" /\ ~Callable(op, argv) /\ op.ek \in {"raw", "upgrade"} /\ Deviation("K8")
             \/ phase = "failing" /\ op.ek \in {"raw", "upgrade"} /\ Deviation("K8")
             \/ l = 1 /\ Clash /\ Deviation("K9")
             \/ phase = "pages" /\ reqs = <<>> /\ ~LimitTyped /\ Gives(argv, LIMIT) /\ Deviation("K11")
          /\ Move("ended") /\ UNCHANGED <<givens, buf, tok, left, reqs, told, over>> /\ Step_
TDone == ~More /\ phase \in {"refused", "ended"} /\ UNCHANGED <<i, l, kvars, cvars>>
TNext == TDef \/ TRefused \/ TParsed \/ TOver \/ TReq \/ TCb \/ TEnd \/ TPanic \/ TDone
=============================================================================
