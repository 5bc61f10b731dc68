------------------------------ MODULE Request -------------------------------
(***************************************************************************)
(* What a call must put on the wire (C01-C04).                             *)
(*                                                                         *)
(* An operation op has: method, path (template bytes), params - a sequence *)
(* of [n (name bytes), lname (lower-case name), in, req] -, body           *)
(* [k |-> "none"|"json"|"form"|"bytes"|"text", ct].  A call has args, one  *)
(* value per parameter: [k |-> "absent"|"text"|"list"|"map", s, a, m], and *)
(* body: the JSON tree (json), the pairs (form) or the bytes.              *)
(***************************************************************************)
EXTENDS Template

APIVERSION == <<97,112,105,45,118,101,114,115,105,111,110>>
ACCEPT == <<97,99,99,101,112,116>>
HOST == <<104,111,115,116>>
CTYPE == <<99,111,110,116,101,110,116,45,116,121,112,101>>

Unsafe == {SLASH, QM, HASH, PCT, BSLASH}

(* --- path (C01) --------------------------------------------------------- *)
ArgOf(op, args, name) ==
  LET k == CHOOSE j \in 1..Len(op.params) : op.params[j].in = "path" /\ op.params[j].n = name
  IN args[k].s

(* Expected bytes, each with where it comes from: a value, template text,  *)
(* or an escape in template text.                                          *)
VAL == 0  LITERAL == 1  ESCAPE == 2
Literal(s) == LET u == Units(s)
              IN IF u.ok THEN [k \in 1..Len(u.units) |-> <<u.units[k][1], IF u.units[k][2] THEN ESCAPE ELSE LITERAL>>]
                 ELSE [k \in 1..Len(s) |-> <<s[k], LITERAL>>]
ExpectedPath(base, op, args) ==
  LET t == Parse(op.path)
      value(s) == [k \in 1..Len(s) |-> <<s[k], VAL>>]
  IN Literal(base) \o
     Concat([k \in 1..Len(t.comps) |->
        IF t.comps[k].k = "lit" THEN Literal(t.comps[k].s)
        ELSE value(ArgOf(op, args, t.comps[k].s))])

Safe(c) == \/ c \in 48..57 \/ c \in 65..90 \/ c \in 97..122 \/ c \in {45, 46, 95, 126, 58, 47, 59, 44, 64, 43, 61, 38, 36, 33, 42, 40, 41, 39}
PathMatches(path, exp) ==
  LET u == Units(path)
  IN /\ u.ok
     /\ Len(u.units) = Len(exp)
     /\ \A k \in 1..Len(exp) :
          /\ u.units[k][1] = exp[k][1]
          /\ (exp[k][2] = LITERAL /\ Safe(exp[k][1])) => ~u.units[k][2]     \* literal text unchanged
          /\ exp[k][2] = ESCAPE => u.units[k][2]
          /\ (exp[k][2] = VAL /\ exp[k][1] \in Unsafe) => u.units[k][2]     \* values never delimit

PathOK(base, op, args, req) == PathMatches(Before(req.target, QM), ExpectedPath(base, op, args))

(* Known deviation D2: a segment whose whole text is "." or ".." is        *)
(* removed by the URL parser (WHATWG dot-segment removal), which no        *)
(* escaping can prevent.  Exactly that result is recognised.               *)
RECURSIVE DotSegs(_, _, _)
DotSegs(segs, k, out) ==
  IF k > Len(segs) THEN out
  ELSE LET txt == [j \in 1..Len(segs[k]) |-> segs[k][j][1]]
           last == k = Len(segs)
           pop == IF out = <<>> THEN out ELSE SubSeq(out, 1, Len(out) - 1)
       IN IF txt = <<DOT, DOT>> THEN DotSegs(segs, k + 1, IF last THEN Append(pop, <<>>) ELSE pop)
          ELSE IF txt = <<DOT>> THEN DotSegs(segs, k + 1, IF last THEN Append(out, <<>>) ELSE out)
          ELSE DotSegs(segs, k + 1, Append(out, segs[k]))
SplitMarked(e) ==
  LET step(acc, x) == IF x = <<SLASH, LITERAL>> THEN [done |-> Append(acc.done, acc.cur), cur |-> <<>>]
                      ELSE [acc EXCEPT !.cur = Append(@, x)]
      r == FoldLeft(step, [done |-> <<>>, cur |-> <<>>], e)
  IN Append(r.done, r.cur)
JoinMarked(segs) == Concat([k \in 1..Len(segs) |-> <<<<SLASH, LITERAL>>>> \o segs[k]])
HasDotSeg(e) == LET segs == SplitMarked(e)
                IN \E k \in 1..Len(segs) :
                     /\ Len(segs[k]) \in {1, 2}
                     /\ \A j \in 1..Len(segs[k]) : segs[k][j][1] = DOT
PathDotNormalised(base, op, args, req) ==
  LET e == ExpectedPath(base, op, args)
      segs == Tail(SplitMarked(e))       \* the text starts with '/'
  IN HasDotSeg(e) /\ PathMatches(Before(req.target, QM), JoinMarked(DotSegs(segs, 1, <<>>)))

(* --- query (C02) --------------------------------------------------------- *)
PairsOf(p, v) ==
  CASE v.k = "absent" -> <<>>
    [] v.k = "text" -> << <<p.n, v.s>> >>
    [] v.k = "list" -> [k \in 1..Len(v.a) |-> <<p.n, v.a[k]>>]
    [] v.k = "map" -> [k \in 1..Len(v.m) |-> <<v.m[k][1], v.m[k][2]>>]
    [] OTHER -> <<>>
ExpectedPairs(op, args) ==
  Concat([k \in 1..Len(op.params) |-> IF op.params[k].in = "query" THEN PairsOf(op.params[k], args[k]) ELSE <<>>])
QueryOK(op, args, req) ==
  LET got == FormPairs(After(req.target, QM))
      exp == ExpectedPairs(op, args)
      sub(ps, n) == SelectSeq(ps, LAMBDA x : x[1] = n)
  IN /\ got.ok
     /\ SameBag(got.pairs, exp)
     /\ \A k \in 1..Len(op.params) :      \* list elements stay in order
          (op.params[k].in = "query" /\ args[k].k = "list")
            => sub(got.pairs, op.params[k].n) = sub(exp, op.params[k].n)

(* --- headers (C04) -------------------------------------------------------- *)
HeaderValid(s) == \A k \in 1..Len(s) : s[k] = 9 \/ (s[k] >= 32 /\ s[k] # 127)
HeaderArgsValid(op, args) ==
  \A k \in 1..Len(op.params) :
     (op.params[k].in = "header" /\ args[k].k = "text") => HeaderValid(args[k].s)
ExpectedHeader(version, op, args, lname) ==
  (IF lname = APIVERSION THEN <<version>> ELSE <<>>) \o
  Concat([k \in 1..Len(op.params) |->
     IF op.params[k].in = "header" /\ op.params[k].lname = lname /\ args[k].k = "text"
     THEN <<Trim(args[k].s)>> ELSE <<>>])
HeadersOK(version, op, args, req) ==
  LET vals(n) == LET v == HeaderVals(req.headers, n) IN [k \in 1..Len(v) |-> Trim(v[k])]
      names == {APIVERSION} \cup {op.params[k].lname : k \in {j \in 1..Len(op.params) : op.params[j].in = "header"}}
  IN /\ \A n \in names : SameBag(vals(n), ExpectedHeader(version, op, args, n))
     /\ op.accept => vals(ACCEPT) = <<op.acceptv>>
     /\ Len(HeaderVals(req.headers, HOST)) = 1

(* --- verb and body (C03) --------------------------------------------------- *)
BodyOK(op, body, req) ==
  LET ct == HeaderVals(req.headers, CTYPE)
      labelled == Len(ct) = 1 /\ MediaOf(ct[1]) = op.body.ct
  IN /\ req.method = op.method
     /\ req.complete
     /\ CASE op.body.k = "none" -> req.body = <<>> /\ ct = <<>>
          [] op.body.k = "json" -> labelled /\ req.jsonok /\ req.json = body.json
          [] op.body.k = "form" -> labelled /\ LET f == FormPairs(req.body) IN f.ok /\ SameBag(f.pairs, body.pairs)
          [] OTHER -> labelled /\ req.body = body.bytes
=============================================================================
