------------------------------ MODULE MC_Path -------------------------------
(***************************************************************************)
(* C01, design level.  A client that escapes the bytes of Escaped and an   *)
(* URL parser that behaves as WHATWG prescribes for http URLs (tabs and    *)
(* newlines removed, '\' read as '/', '#' and '?' cutting the text, dot    *)
(* segments removed also when written as %2e, remaining path-set bytes     *)
(* escaped).  For every template and every value up to MaxLen over one     *)
(* representative of each class of bytes the request target must satisfy   *)
(* PathOK, or be exactly the recorded dot-segment deviation.               *)
(*                                                                         *)
(* The values are also written to scen.json: the conformance check feeds   *)
(* them to the real code.                                                  *)
(***************************************************************************)
EXTENDS Request, Json, TLC

CONSTANTS MaxLen, Bytes, Escaped

T(s) == s
Tpl == << <<47,97,47,123,120,125>>,                       \* /a/{x}
          <<47,97,47,123,120,125,47,122>>,                \* /a/{x}/z
          <<47,123,120,125,45,123,121,125>>,              \* /{x}-{y}
          <<47,112,123,120,125,58,118>> >>                \* /p{x}:v
Base == <<47, 98>>                                        \* /b

Par1 == [n |-> <<120>>, lname |-> <<120>>, in |-> "path", req |-> TRUE]
Par2 == [n |-> <<121>>, lname |-> <<121>>, in |-> "path", req |-> TRUE]
OpOf(t) == [path |-> Tpl[t], params |-> <<Par1, Par2>>]

VARIABLES t, v, w, target

Hex(n) == IF n < 10 THEN 48 + n ELSE 55 + n
Esc(c) == <<PCT, Hex(c \div 16), Hex(c % 16)>>
EncodeWith(set, s) == Concat([k \in 1..Len(s) |-> IF s[k] \in set \/ s[k] >= 128 THEN Esc(s[k]) ELSE <<s[k]>>])

(* --- the URL parser ------------------------------------------------------ *)
PathSet == (0..32) \cup {34, 35, 60, 62, 63, 96, 123, 125, 127}
Strip(s) == SelectSeq(s, LAMBDA c : c \notin {9, 10, 13})
Cut(s) == LET p == SelectInSeq(s, LAMBDA c : c \in {HASH, QM}) IN IF p = 0 THEN s ELSE SubSeq(s, 1, p - 1)
Segs(s) == Tail(Split([k \in 1..Len(s) |-> IF s[k] = BSLASH THEN SLASH ELSE s[k]], SLASH))
Low(s) == LowerSeq(s)
OneDot == {<<46>>, <<37,50,101>>}
TwoDot == {a \o b : a \in OneDot, b \in OneDot}
RECURSIVE Resolve(_, _, _)
Resolve(ss, k, acc) ==
  IF k > Len(ss) THEN acc
  ELSE LET last == k = Len(ss)
           pop == IF acc = <<>> THEN acc ELSE SubSeq(acc, 1, Len(acc) - 1)
       IN IF Low(ss[k]) \in TwoDot THEN Resolve(ss, k + 1, IF last THEN Append(pop, <<>>) ELSE pop)
          ELSE IF Low(ss[k]) \in OneDot THEN Resolve(ss, k + 1, IF last THEN Append(acc, <<>>) ELSE acc)
          ELSE Resolve(ss, k + 1, Append(acc, EncodeWith(PathSet, ss[k])))
UrlTarget(s) == LET ss == Segs(Cut(Strip(s)))
                IN Concat([k \in 1..Len(Resolve(ss, 1, <<>>)) |-> <<SLASH>> \o Resolve(ss, 1, <<>>)[k]])

ClientUrl(tp, a) ==
  LET p == Parse(Tpl[tp])
  IN Base \o Concat([k \in 1..Len(p.comps) |->
       IF p.comps[k].k = "lit" THEN p.comps[k].s
       ELSE EncodeWith(Escaped, IF p.comps[k].s = <<120>> THEN a[1] ELSE a[2])])

Vals(n) == UNION {[1..k -> Bytes] : k \in 0..n}
Txt(x) == [k |-> "text", s |-> x, a |-> <<>>, m |-> <<>>]

Init == /\ t \in 1..Len(Tpl)
        /\ v \in Vals(MaxLen)
        /\ w \in IF t = 3 THEN {<<>>, <<46>>, <<47>>} ELSE {<<>>}
        /\ target = UrlTarget(ClientUrl(t, <<v, w>>))
Next == UNCHANGED <<t, v, w, target>>

Args == <<Txt(v), Txt(w)>>
Req == [target |-> target]
Confined == \/ PathOK(Base, OpOf(t), Args, Req)
            \/ PathDotNormalised(Base, OpOf(t), Args, Req)
(* The deviation is not a loophole: it needs a whole segment of dots.      *)
OnlyDots == PathOK(Base, OpOf(t), Args, Req) \/ HasDotSeg(ExpectedPath(Base, OpOf(t), Args))

ASSUME JsonSerialize("scen.json", SetToSeq(Vals(MaxLen)))
=============================================================================
