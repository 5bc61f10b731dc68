------------------------------- MODULE Builder --------------------------------
(* The builder as a machine, and the property stated on its history (C11). *)
EXTENDS BuilderOps

(* --- the machine --------------------------------------------------------- *)
VARIABLES shp, b, hist, result
bvars == <<shp, b, hist, result>>
BInit(shapes) == /\ shp \in shapes /\ b = Fresh(shp) /\ hist = <<>> /\ result = [k |-> "none"]
Setter(call) == /\ result.k = "none"
                /\ b' = Apply(shp, b, call) /\ hist' = Append(hist, call)
                /\ UNCHANGED <<shp, result>>
Send == /\ result.k = "none"
        /\ result' = IF Sendable(shp, b) THEN [k |-> "request", b |-> b] ELSE [k |-> "InvalidRequest"]
        /\ UNCHANGED <<shp, b, hist>>

(* --- the property, stated on the history alone --------------------------- *)
LastIdx(S) == IF S = {} THEN 0 ELSE CHOOSE x \in S : \A y \in S : y <= x
LastOf(h, p) == LET k == LastIdx({j \in 1..Len(h) : h[j].c = "set" /\ h[j].p = p})
                IN IF k = 0 THEN Unset ELSE h[k].x
Whole(h) == LastIdx({j \in 1..Len(h) : h[j].c \in {"body", "build"}})
(* The member settings that count, in order: those of the last whole body  *)
(* and those made on it since.                                             *)
MemberCalls(h) == Concat([j \in 1..Len(h) |->
                     IF j >= Whole(h) /\ h[j].c \in {"body", "build", "map"} THEN h[j].m ELSE <<>>])
LastMember(h, f) == LET m == MemberCalls(h)
                        k == LastIdx({j \in 1..Len(m) : m[j].f = f})
                    IN IF k = 0 THEN Unset ELSE m[k].x
WholeBad(sh, h) == LET w == Whole(h)
                   IN w # 0 /\ (\/ h[w].c = "body" /\ h[w].x.k = "bad"
                                \/ h[w].c = "build" /\ ~Complete(sh, SetAll(NoMembers(sh), h[w].m)))
Expected(sh, h) ==
  [slots |-> [j \in 1..Len(sh.params) |-> LastOf(h, j)],
   body |-> CASE sh.body.k = "none" -> Unset
              [] sh.body.k = "plain" -> IF Whole(h) = 0 THEN Unset ELSE h[Whole(h)].x
              [] WholeBad(sh, h) -> Bad
              [] OTHER -> [k |-> "ok", f |-> [j \in 1..Len(sh.body.fields) |-> LastMember(h, j)]]]
LastWins == b = Expected(shp, hist)
(* Setters of different parameters commute.                                *)
Target(c) == IF c.c = "set" THEN c.p ELSE 0
SwapAt(h, j) == [k \in 1..Len(h) |-> IF k = j THEN h[j + 1] ELSE IF k = j + 1 THEN h[j] ELSE h[k]]
OrderIrrelevant == \A j \in 1..(Len(hist) - 1) :
                     Target(hist[j]) # Target(hist[j + 1]) => Run(shp, SwapAt(hist, j)) = b
NothingInvalidSent ==
  result.k = "request" =>
     /\ \A j \in 1..Len(shp.params) : LET x == LastOf(hist, j)
                                      IN x.k # "bad" /\ (shp.params[j].req => x.k = "ok")
     /\ shp.body.k = "struct" => ~WholeBad(shp, hist)
                                 /\ \A f \in 1..Len(shp.body.fields) :
                                      LET x == LastMember(hist, f)
                                      IN x.k # "bad" /\ (shp.body.fields[f].req => x.k = "ok")
RefusedForAReason ==
  result.k = "InvalidRequest" =>
     \/ \E j \in 1..Len(shp.params) : LET x == LastOf(hist, j) IN x.k = "bad" \/ (shp.params[j].req /\ x.k = "unset")
     \/ shp.body.k = "plain" /\ (Whole(hist) = 0 \/ hist[Whole(hist)].x.k = "bad")
     \/ shp.body.k = "struct" /\ \/ WholeBad(shp, hist)
                                 \/ \E f \in 1..Len(shp.body.fields) :
                                      LET x == LastMember(hist, f)
                                      IN x.k = "bad" \/ (shp.body.fields[f].req /\ x.k = "unset")
=============================================================================
