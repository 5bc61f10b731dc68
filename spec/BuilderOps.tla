----------------------------- MODULE BuilderOps ------------------------------
(***************************************************************************)
(* The builder interface (C11): what setter calls do.                      *)
(*                                                                         *)
(* shape = [params : Seq([req : BOOLEAN]),                                 *)
(*          body   : [k |-> "none"|"plain"|"struct", fields : Seq([n, req])]] *)
(* A value slot is [k |-> "unset"], [k |-> "bad"] (the value given did not *)
(* convert) or [k |-> "ok", v].  A structured body is a record of member   *)
(* slots, or bad as a whole.                                               *)
(*                                                                         *)
(* Calls: [c |-> "set", p, x]      a parameter's setter                    *)
(*        [c |-> "body", x, m]     body(value); m: the value's members     *)
(*        [c |-> "build", m]       body(builder with these members set)    *)
(*        [c |-> "map", m]         body_map(|b| b.f1(x1).f2(x2)...)        *)
(*        [c |-> "clone"]          the builder is cloned; the copy is used *)
(* m is a sequence of [f, x].                                              *)
(***************************************************************************)
EXTENDS Bytes

Unset == [k |-> "unset"]
Bad == [k |-> "bad"]

SetAll(fields, m) ==
  FoldLeft(LAMBDA acc, e : [acc EXCEPT ![e.f] = e.x], fields, m)
NoMembers(shape) == [j \in 1..Len(shape.body.fields) |-> Unset]
Complete(shape, fs) == \A j \in 1..Len(fs) :
                          fs[j].k = "ok" \/ (fs[j].k = "unset" /\ ~shape.body.fields[j].req)

Fresh(shape) == [slots |-> [j \in 1..Len(shape.params) |-> Unset],
                 body  |-> IF shape.body.k = "struct" THEN [k |-> "ok", f |-> NoMembers(shape)] ELSE Unset]

Apply(shape, b, call) ==
  CASE call.c = "set" -> [b EXCEPT !.slots[call.p] = call.x]
    [] call.c = "body" /\ shape.body.k = "plain" -> [b EXCEPT !.body = call.x]
    [] call.c = "body" -> [b EXCEPT !.body = IF call.x.k = "bad" THEN Bad
                                             ELSE [k |-> "ok", f |-> SetAll(NoMembers(shape), call.m)]]
    [] call.c = "build" -> LET fs == SetAll(NoMembers(shape), call.m)
                           IN [b EXCEPT !.body = IF Complete(shape, fs) THEN [k |-> "ok", f |-> fs] ELSE Bad]
    [] call.c = "map" -> IF b.body.k = "bad" THEN b
                         ELSE [b EXCEPT !.body.f = SetAll(@, call.m)]
    [] OTHER -> b

Run(shape, calls) == FoldLeft(LAMBDA b, c : Apply(shape, b, c), Fresh(shape), calls)

Sendable(shape, b) ==
  /\ \A j \in 1..Len(b.slots) : b.slots[j].k = "ok" \/ (b.slots[j].k = "unset" /\ ~shape.params[j].req)
  /\ CASE shape.body.k = "none" -> TRUE
       [] shape.body.k = "plain" -> b.body.k = "ok"
       [] OTHER -> b.body.k = "ok" /\ Complete(shape, b.body.f)
=============================================================================
