------------------------------- MODULE Params ---------------------------------
(***************************************************************************)
(* The parameters of an operation (C16).  A declaration is                 *)
(*   [n : bytes, in : "path"|"query"|"header", req : BOOLEAN, tag]         *)
(* where tag stands for the rest of it (schema, description).  plevel and  *)
(* olevel are the declarations of the path item and of the operation (in   *)
(* document order, references already followed), names the template's      *)
(* parameters in order.                                                    *)
(***************************************************************************)
EXTENDS Bytes

(* --- what the property says ---------------------------------------------- *)
InLevel(level, n) == \E k \in 1..Len(level) : level[k].n = n
Effective(plevel, olevel) ==
  Range(olevel) \cup {p \in Range(plevel) : ~InLevel(olevel, p.n)}

RECURSIVE LexLess(_, _)
LexLess(a, b) == IF b = <<>> THEN FALSE ELSE IF a = <<>> THEN TRUE
                 ELSE IF a[1] = b[1] THEN LexLess(Tail(a), Tail(b)) ELSE a[1] < b[1]
InRank(p) == CASE p.in = "path" -> 1 [] p.in = "query" -> 2 [] OTHER -> 3
Pos(names, n) == CHOOSE k \in 1..Len(names) : names[k] = n
Precedes(names, p, q) ==
  \/ InRank(p) < InRank(q)
  \/ InRank(p) = InRank(q) /\ IF p.in = "path" THEN Pos(names, p.n) < Pos(names, q.n) ELSE LexLess(p.n, q.n)
(* The one order the property allows. *)
Ordered(names, set) == SetToSortSeq(set, LAMBDA p, q : Precedes(names, p, q))
Resolved(d) == Ordered(d.names, Effective(d.plevel, d.olevel))

(* --- one way to compute it: a map by name, then insertion ------------------ *)
Upsert(seq, p) ==
  LET k == SelectInSeq(seq, LAMBDA x : x.n = p.n)
  IN IF k = 0 THEN Append(seq, p) ELSE [seq EXCEPT ![k] = p]
Insert(names, seq, p) ==
  LET before == SelectSeq(seq, LAMBDA x : Precedes(names, x, p))
      after == SelectSeq(seq, LAMBDA x : ~Precedes(names, x, p))
  IN before \o <<p>> \o after
=============================================================================
