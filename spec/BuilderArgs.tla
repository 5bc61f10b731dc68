----------------------------- MODULE BuilderArgs -----------------------------
(***************************************************************************)
(* A builder session has, instead of argument values, a shape and setter   *)
(* calls; BuilderOps determines what they amount to.                       *)
(***************************************************************************)
EXTENDS BuilderOps

NoVal == [s |-> <<>>, a |-> <<>>, m |-> <<>>, k |-> "absent"]
Arg(slot) == CASE slot.k = "unset" -> NoVal [] slot.k = "bad" -> [NoVal EXCEPT !.k = "bad"] [] OTHER -> slot.v
Null(v) == v.k = "null"
Present(fields, fs) == SelectSeq([j \in 1..Len(fs) |-> [n |-> fields[j].n, x |-> fs[j]]],
                                 LAMBDA e : e.x.k = "ok" /\ ~Null(e.x.v))
BodyRec(raw, st) ==
  LET none == [k |-> "none", json |-> [k |-> "null", s |-> <<>>, a |-> <<>>, o |-> <<>>], pairs |-> <<>>, bytes |-> <<>>, strict |-> FALSE]
  IN CASE raw.shape.body.k = "none" -> none
       [] ~Sendable(raw.shape, st) -> [none EXCEPT !.k = "bad"]
       [] raw.op.body.k = "form" ->
            [none EXCEPT !.k = "form", !.pairs = LET m == Present(raw.shape.body.fields, st.body.f)
                                                 IN [j \in 1..Len(m) |-> <<m[j].n, m[j].x.v.s>>]]
       [] raw.shape.body.k = "struct" ->
            [none EXCEPT !.k = "json", !.json = LET m == Present(raw.shape.body.fields, st.body.f)
                           IN [k |-> "obj", s |-> <<>>, a |-> <<>>, o |-> [j \in 1..Len(m) |-> <<m[j].n, m[j].x.v>>]]]
       [] raw.op.body.k = "json" -> [none EXCEPT !.k = "json", !.json = st.body.v]
       [] OTHER -> [none EXCEPT !.k = raw.op.body.k, !.bytes = st.body.v]
BResolve(raw) ==
  LET st == Run(raw.shape, raw.calls)
      ok == Sendable(raw.shape, st)
  IN [base |-> raw.base, version |-> raw.version, op |-> raw.op, cfg |-> raw.cfg, ans |-> raw.ans,
      mayfail |-> raw.mayfail, events |-> raw.events,
      args |-> [j \in 1..Len(raw.op.params) |-> Arg(st.slots[j])],
      body |-> IF ok THEN BodyRec(raw, st)
               ELSE [k |-> "bad", json |-> [k |-> "null", s |-> <<>>, a |-> <<>>, o |-> <<>>], pairs |-> <<>>, bytes |-> <<>>, strict |-> TRUE]]
=============================================================================
