------------------------------- MODULE Bytes -------------------------------
(***************************************************************************)
(* Byte strings (sequences of 0..255) and the encodings an HTTP client has *)
(* to get right.  Text is its UTF-8 bytes throughout the specification.    *)
(***************************************************************************)
EXTENDS Naturals, Sequences, SequencesExt, FiniteSets, Folds, Functions

SLASH == 47  PCT == 37  QM == 63  AMP == 38  EQS == 61  PLUS == 43
SPACE == 32  DOT == 46  BSLASH == 92  HASH == 35

IsHex(c) == \/ c \in 48..57 \/ c \in 65..70 \/ c \in 97..102
HexVal(c) == IF c \in 48..57 THEN c - 48 ELSE IF c \in 65..70 THEN c - 55 ELSE c - 87

(* Units of a percent-encoded text: <<byte, wasEscaped>> for every decoded *)
(* byte; a '%' that is not followed by two hex digits makes it malformed.  *)
Units(s) ==
  LET step(acc, c) ==
        CASE acc.st = 0 -> IF c = PCT THEN [acc EXCEPT !.st = 1]
                           ELSE [acc EXCEPT !.out = Append(@, <<c, FALSE>>)]
          [] acc.st = 1 -> IF IsHex(c) THEN [acc EXCEPT !.st = 2, !.hi = HexVal(c)]
                           ELSE [acc EXCEPT !.st = 9]
          [] acc.st = 2 -> IF IsHex(c)
                           THEN [acc EXCEPT !.st = 0, !.out = Append(@, <<acc.hi * 16 + HexVal(c), TRUE>>)]
                           ELSE [acc EXCEPT !.st = 9]
          [] OTHER -> acc
      r == FoldLeft(step, [st |-> 0, hi |-> 0, out |-> <<>>], s)
  IN [ok |-> r.st = 0, units |-> r.out]

PctDecode(s) == LET u == Units(s) IN [ok |-> u.ok, bytes |-> [k \in 1..Len(u.units) |-> u.units[k][1]]]

(* Splits s at every occurrence of byte c: always at least one piece. *)
Split(s, c) ==
  LET step(acc, x) == IF x = c THEN [done |-> Append(acc.done, acc.cur), cur |-> <<>>]
                      ELSE [acc EXCEPT !.cur = Append(@, x)]
      r == FoldLeft(step, [done |-> <<>>, cur |-> <<>>], s)
  IN Append(r.done, r.cur)

(* Position of the first c in s, or 0. *)
Find(s, c) == SelectInSeq(s, LAMBDA x: x = c)

Before(s, c) == LET p == Find(s, c) IN IF p = 0 THEN s ELSE SubSeq(s, 1, p - 1)
After(s, c)  == LET p == Find(s, c) IN IF p = 0 THEN <<>> ELSE SubSeq(s, p + 1, Len(s))
HasByte(s, c) == Find(s, c) # 0

(* application/x-www-form-urlencoded: a sequence of <<name, value>> pairs. *)
FormText(s) == PctDecode([k \in 1..Len(s) |-> IF s[k] = PLUS THEN SPACE ELSE s[k]])
FormPairs(s) ==
  IF s = <<>> THEN [ok |-> TRUE, pairs |-> <<>>]
  ELSE LET ps == Split(s, AMP)
           d == [k \in 1..Len(ps) |-> <<FormText(Before(ps[k], EQS)), FormText(After(ps[k], EQS)), HasByte(ps[k], EQS)>>]
       IN [ok |-> \A k \in 1..Len(d) : d[k][1].ok /\ d[k][2].ok /\ d[k][3],
           pairs |-> [k \in 1..Len(d) |-> <<d[k][1].bytes, d[k][2].bytes>>]]

Lower(c) == IF c \in 65..90 THEN c + 32 ELSE c
LowerSeq(s) == [k \in 1..Len(s) |-> Lower(s[k])]

(* Values of the headers with a given (lower-case) name, in order. *)
HeaderVals(hs, name) ==
  LET sel == SelectSeq(hs, LAMBDA h : h[1] = name)
  IN [k \in 1..Len(sel) |-> sel[k][2]]

IsWs(c) == c \in {9, 32}
TrimL(s) == LET p == SelectInSeq(s, LAMBDA c : ~IsWs(c)) IN IF p = 0 THEN <<>> ELSE SubSeq(s, p, Len(s))
Trim(s) == Reverse(TrimL(Reverse(TrimL(s))))
(* The media type of a content-type header value. *)
MediaOf(v) == LowerSeq(Trim(Before(v, 59)))
StartsWith(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p
Concat(ss) == FoldLeft(LAMBDA a, b : a \o b, <<>>, ss)

(* Same elements with the same multiplicities. *)
SameBag(a, b) ==
  /\ Len(a) = Len(b)
  /\ \A x \in Range(a) \cup Range(b) :
        Len(SelectSeq(a, LAMBDA y : y = x)) = Len(SelectSeq(b, LAMBDA y : y = x))
=============================================================================
