------------------------------ MODULE Template ------------------------------
(***************************************************************************)
(* Path templates (C14).  Two definitions that MCTemplate proves equal on  *)
(* every text up to a bound: a declarative one (Accepted, what the         *)
(* property says) and the character machine (Step/Parse, what a generator  *)
(* has to do), whose result the rest of the specification uses.            *)
(***************************************************************************)
EXTENDS Bytes

LB == 123  RB == 125

(* --- declarative ------------------------------------------------------- *)
NoneOf(s, a, z, bad) == \A k \in a..z : s[k] \notin bad
Accepted(s) ==
  /\ s # <<>> /\ s[1] = SLASH
  /\ \A p \in 1..Len(s) : s[p] = LB =>
        \E q \in (p+2)..Len(s) : s[q] = RB /\ NoneOf(s, p+1, q-1, {LB, RB, SLASH})
  /\ \A q \in 1..Len(s) : s[q] = RB =>
        \E p \in 1..(q-2) : s[p] = LB /\ NoneOf(s, p+1, q-1, {LB, RB, SLASH})

(* --- machine ------------------------------------------------------------ *)
Lit(s) == [k |-> "lit", s |-> s]
Par(s) == [k |-> "param", s |-> s]

MInit == [st |-> "start", cur |-> <<>>, out |-> <<>>]
Step(m, c) ==
  CASE m.st = "bad" -> m
    [] m.st = "start" -> IF c = SLASH THEN [m EXCEPT !.st = "lit", !.cur = <<c>>]
                         ELSE [m EXCEPT !.st = "bad"]
    [] m.st = "after" -> IF c = LB THEN [m EXCEPT !.st = "param", !.cur = <<>>]
                         ELSE IF c = RB THEN [m EXCEPT !.st = "bad"]
                         ELSE [m EXCEPT !.st = "lit", !.cur = <<c>>]
    [] m.st = "lit" -> IF c = LB THEN [st |-> "param", cur |-> <<>>, out |-> Append(m.out, Lit(m.cur))]
                       ELSE IF c = RB THEN [m EXCEPT !.st = "bad"]
                       ELSE IF c = SLASH /\ m.cur[Len(m.cur)] = SLASH THEN m
                       ELSE [m EXCEPT !.cur = Append(@, c)]
    [] m.st = "param" -> IF c = RB
                         THEN IF m.cur = <<>> THEN [m EXCEPT !.st = "bad"]
                              ELSE [st |-> "after", cur |-> <<>>, out |-> Append(m.out, Par(m.cur))]
                         ELSE IF c \in {LB, SLASH} THEN [m EXCEPT !.st = "bad"]
                         ELSE [m EXCEPT !.cur = Append(@, c)]
    [] OTHER -> m
Parse(s) ==
  LET m == FoldLeft(Step, MInit, s)
  IN IF m.st = "lit" THEN [ok |-> TRUE, comps |-> Append(m.out, Lit(m.cur))]
     ELSE [ok |-> m.st = "after", comps |-> m.out]

Names(t) == LET ps == SelectSeq(t.comps, LAMBDA c : c.k = "param") IN [k \in 1..Len(ps) |-> ps[k].s]
(* The template text with repeated slashes collapsed. *)
Render(t) == Concat([k \in 1..Len(t.comps) |->
                IF t.comps[k].k = "lit" THEN t.comps[k].s ELSE <<LB>> \o t.comps[k].s \o <<RB>>])
=============================================================================
