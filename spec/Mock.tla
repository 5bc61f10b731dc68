-------------------------------- MODULE Mock ----------------------------------
(***************************************************************************)
(* Generated mocks (C17): which requests the mock of an operation answers, *)
(* given the values expected of its parameters and body, and what it       *)
(* answers.                                                                *)
(*                                                                         *)
(* A request is [method, path, pairs, bytes, jsonok, json]: the path as it *)
(* is on the wire, the query as decoded pairs.  An expectation is          *)
(*   [part |-> "path" | "query" | "body", n (name), k, ...]                *)
(* with k = "text" (value s), "json" (value v) or "absent".                *)
(***************************************************************************)
EXTENDS Template

(* --- paths ----------------------------------------------------------------- *)
(* The components of the path fit the template, if every parameter p of      *)
(* DOMAIN fixed stands for the value fixed[p] and the others for any text    *)
(* without a slash.                                                          *)
NoSlash(s) == ~HasByte(s, SLASH)
Means(piece, v) == LET d == PctDecode(piece) IN d.ok /\ d.bytes = v
RECURSIVE Fits(_, _, _)
Fits(comps, fixed, path) ==
  IF comps = <<>> THEN path = <<>>
  ELSE LET c == comps[1]
       IN IF c.k = "lit" THEN StartsWith(path, c.s) /\ Fits(Tail(comps), fixed, SubSeq(path, Len(c.s) + 1, Len(path)))
          ELSE \E n \in 0..Len(path) :
                 LET piece == SubSeq(path, 1, n)
                 IN /\ NoSlash(piece)
                    /\ c.s \in DOMAIN fixed => Means(piece, fixed[c.s])
                    /\ Fits(Tail(comps), fixed, SubSeq(path, n + 1, Len(path)))
PathExps(exps) == SelectSeq(exps, LAMBDA e : e.part = "path")
FixedBy(exps) == LET ps == PathExps(exps)
                 IN [x \in {ps[k].n : k \in 1..Len(ps)} |-> (CHOOSE k \in 1..Len(ps) : ps[k].n = x) ]
Fixed(exps) == LET ps == PathExps(exps)  f == FixedBy(exps) IN [x \in DOMAIN f |-> ps[f[x]].s]
PathAccepted(op, exps, r) == Fits(Parse(op.path).comps, Fixed(exps), r.path)

(* --- the rest --------------------------------------------------------------- *)
Carries(r, n, v) == \E k \in 1..Len(r.pairs) : r.pairs[k] = <<n, v>>
CarriesAny(r, n) == \E k \in 1..Len(r.pairs) : r.pairs[k][1] = n
ExpMet(e, r) ==
  CASE e.part = "path" -> TRUE
    [] e.part = "query" -> IF e.k = "absent" THEN ~CarriesAny(r, e.n) ELSE Carries(r, e.n, e.s)
    [] e.k = "json" -> r.jsonok /\ r.json = e.v
    [] OTHER -> r.bytes = e.s
Accepts(op, exps, r) == /\ r.method = op.method
                        /\ PathAccepted(op, exps, r)
                        /\ \A k \in 1..Len(exps) : ExpMet(exps[k], r)

(* --- answers ------------------------------------------------------------------ *)
(* The answer set for a declared response: its status, or the one given if    *)
(* it is declared for several; the value as JSON.                              *)
StatusOf(resp, given) == IF resp.st.k = "code" THEN resp.st.n ELSE given
InRange(resp, given) == resp.st.k = "range" => (given \div 100) = resp.st.n
=============================================================================
