------------------------------- MODULE Schema -------------------------------
(***************************************************************************)
(* What it means for a JSON value to satisfy an OpenAPI 3.0 schema and a   *)
(* JSON schema, as two independent readings, and the conversion between    *)
(* them.                                                                   *)
(*                                                                         *)
(* Values    [k |-> "null"]  [k |-> "bool", b]  [k |-> "num", n]            *)
(*           [k |-> "str", s]  [k |-> "arr", a]  [k |-> "obj", o]           *)
(*   n = [neg, i, f]: digits before the point (no leading zero) and after  *)
(*   it (no trailing zero); s = code points; o = sequence of [n, v] in the *)
(*   order of the names.                                                   *)
(*                                                                         *)
(* Schemas   [k |-> "ref", to]   [k |-> "any", b] (a boolean schema)        *)
(*           [k |-> "s", types, nullable, hasEnum, enum, lo, hi, mult,      *)
(*            minl, maxl, pat, props, req, addl, minp, maxp, items, mini,  *)
(*            maxi, uniq, allOf, anyOf, oneOf, not, ann, unk]              *)
(*   lo, hi: sequences of bounds [v, x], x saying the bound is excluded;   *)
(*   pat, addl, items, mult, not: sequences of length 0 or 1; limits are   *)
(*   -1 when absent; ann = [title, descr, dflt, ex, flags, fmt, ext];      *)
(*   unk = keywords the reader does not know.                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, Folds, Functions

(* ------------------------------- numbers -------------------------------- *)
DigitsLess(a, b) ==                            \* whole parts
  \/ Len(a) < Len(b)
  \/ Len(a) = Len(b) /\ \E k \in 1..Len(a) : a[k] < b[k] /\ SubSeq(a, 1, k - 1) = SubSeq(b, 1, k - 1)
FracLess(a, b) ==
  \E k \in 1..Len(b) : /\ (IF k > Len(a) THEN 0 ELSE a[k]) < b[k]
                       /\ \A j \in 1..(k - 1) : (IF j > Len(a) THEN 0 ELSE a[j]) = b[j]
AbsLess(x, y) == DigitsLess(x.i, y.i) \/ (x.i = y.i /\ FracLess(x.f, y.f))
NumLess(x, y) ==
  CASE x.neg /\ ~y.neg -> TRUE
    [] ~x.neg /\ y.neg -> FALSE
    [] ~x.neg /\ ~y.neg -> AbsLess(x, y)
    [] OTHER -> AbsLess(y, x)
Integral(x) == x.f = <<>>
(* x is a multiple of m: long division of the digits, both scaled by 10^p.  *)
Scaled(x, p) == x.i \o [k \in 1..p |-> IF k <= Len(x.f) THEN x.f[k] ELSE 0]
ToInt(ds) == FoldLeft(LAMBDA a, d : a * 10 + d, 0, ds)
Multiple(x, m) ==
  LET p == IF Len(x.f) > Len(m.f) THEN Len(x.f) ELSE Len(m.f)
      d == ToInt(Scaled(m, p))
  IN FoldLeft(LAMBDA a, e : (a * 10 + e) % d, 0, Scaled(x, p)) = 0

(* -------------------------------- leaves -------------------------------- *)
TypeOf(v) == CASE v.k = "null" -> "null" [] v.k = "bool" -> "boolean" [] v.k = "num" -> "number"
               [] v.k = "str" -> "string" [] v.k = "arr" -> "array" [] OTHER -> "object"
IsType(v, t) == TypeOf(v) = t \/ (t = "integer" /\ v.k = "num" /\ Integral(v.n))
InEnum(s, v) == \E k \in 1..Len(s.enum) : s.enum[k] = v
(* The patterns the model knows, by their text.                             *)
Lowers(c) == c \in 97..122
Digit(c) == c \in 48..57
PatOk(p, s) ==
  CASE p = "^a" -> Len(s) > 0 /\ s[1] = 97
    [] p = "b$" -> Len(s) > 0 /\ s[Len(s)] = 98
    [] p = "^[a-z]+$" -> Len(s) > 0 /\ \A k \in 1..Len(s) : Lowers(s[k])
    [] p = "^[0-9]{2}$" -> Len(s) = 2 /\ \A k \in 1..2 : Digit(s[k])
    [] p = "x" -> \E k \in 1..Len(s) : s[k] = 120
    [] p = "^$" -> s = <<>>
    [] OTHER -> FALSE
KnownPat(p) == p \in {"^a", "b$", "^[a-z]+$", "^[0-9]{2}$", "x", "^$"}
Within(n, lo, hi) == (lo = -1 \/ n >= lo) /\ (hi = -1 \/ n <= hi)
StrOk(s, v) == v.k = "str" => /\ Within(Len(v.s), s.minl, s.maxl)
                              /\ \A k \in 1..Len(s.pat) : PatOk(s.pat[k], v.s)
NumOk(s, v) == v.k = "num" => /\ \A k \in 1..Len(s.lo) : NumLess(s.lo[k].v, v.n) \/ (~s.lo[k].x /\ s.lo[k].v = v.n)
                              /\ \A k \in 1..Len(s.hi) : NumLess(v.n, s.hi[k].v) \/ (~s.hi[k].x /\ s.hi[k].v = v.n)
                              /\ \A k \in 1..Len(s.mult) : Multiple(v.n, s.mult[k])
Names(v) == {v.o[k].n : k \in 1..Len(v.o)}
PropNames(s) == {s.props[k].n : k \in 1..Len(s.props)}
ObjShape(s, v) == v.k = "obj" => /\ Within(Len(v.o), s.minp, s.maxp)
                                 /\ \A k \in 1..Len(s.req) : s.req[k] \in Names(v)
ArrShape(s, v) == v.k = "arr" => /\ Within(Len(v.a), s.mini, s.maxi)
                                 /\ s.uniq => \A i, j \in 1..Len(v.a) : i # j => v.a[i] # v.a[j]
Leaves(s, v) == StrOk(s, v) /\ NumOk(s, v) /\ ObjShape(s, v) /\ ArrShape(s, v)
Combined(s) == Len(s.allOf) + Len(s.anyOf) + Len(s.oneOf) + Len(s.not) > 0
HasObj(s) == s.props # <<>> \/ s.req # <<>> \/ s.addl # <<>> \/ s.minp # -1 \/ s.maxp # -1
HasArr(s) == s.items # <<>> \/ s.mini # -1 \/ s.maxi # -1 \/ s.uniq
HasNum(s) == s.lo # <<>> \/ s.hi # <<>> \/ s.mult # <<>>
HasStr(s) == s.minl # -1 \/ s.maxl # -1 \/ s.pat # <<>>
ImpliedTypes(s) == (IF HasObj(s) THEN {"object"} ELSE {}) \cup (IF HasArr(s) THEN {"array"} ELSE {})
                   \cup (IF HasNum(s) THEN {"number"} ELSE {}) \cup (IF HasStr(s) THEN {"string"} ELSE {})
Def(env, name) == env[CHOOSE k \in 1..Len(env) : env[k].n = name].s
CountTrue(f) == Cardinality({k \in DOMAIN f : f[k]})

(* ------------------------- an OpenAPI 3.0 schema ------------------------- *)
(* Where OpenAPI leaves a nullable schema without a type open, every reading *)
(* is allowed:                                                              *)
(*   im  its keywords imply the type                                        *)
(*   en  null need not be listed in the enumeration                         *)
(*   cb  null need not satisfy its combinations                             *)
(* (xn is not a reading of OpenAPI: it describes the known finding that a   *)
(* nullable combination rejects null when the combination accepts it.)      *)
Reading == [im : BOOLEAN, en : BOOLEAN, cb : BOOLEAN, xn : BOOLEAN]
RECURSIVE OValid(_, _, _, _)
OSub(s, v, env, rd) ==
  /\ v.k = "obj" => \A k \in 1..Len(v.o) :
        LET e == v.o[k]  ps == SelectSeq(s.props, LAMBDA p : p.n = e.n)
        IN IF ps # <<>> THEN OValid(ps[1].s, e.v, env, rd)
           ELSE s.addl = <<>> \/ OValid(s.addl[1], e.v, env, rd)
  /\ v.k = "arr" /\ s.items # <<>> => \A k \in 1..Len(v.a) : OValid(s.items[1], v.a[k], env, rd)
OComb(s, v, env, rd) ==
  /\ \A k \in 1..Len(s.allOf) : OValid(s.allOf[k], v, env, rd)
  /\ s.anyOf # <<>> => \E k \in 1..Len(s.anyOf) : OValid(s.anyOf[k], v, env, rd)
  /\ s.oneOf # <<>> => CountTrue([k \in 1..Len(s.oneOf) |-> OValid(s.oneOf[k], v, env, rd)]) = 1
  /\ \A k \in 1..Len(s.not) : ~OValid(s.not[k], v, env, rd)
OListed(s, v) == ~s.hasEnum \/ InEnum(s, v)
ONull(s, v, env, rd) ==
  CASE ~s.nullable -> s.types = <<>> /\ OListed(s, v) /\ OComb(s, v, env, rd)
    [] s.nullable /\ s.types # <<>> -> (rd.en \/ OListed(s, v)) /\ OComb(s, v, env, rd)
    [] OTHER ->
        IF ~Combined(s) THEN rd.en \/ OListed(s, v)
        ELSE IF ImpliedTypes(s) = {}
        THEN ~(rd.xn /\ OListed(s, v) /\ OComb(s, v, env, rd))
        ELSE (rd.en \/ OListed(s, v)) /\ (rd.cb \/ OComb(s, v, env, rd))
OValid(s, v, env, rd) ==
  CASE s.k = "ref" -> OValid(Def(env, s.to), v, env, rd)
    [] s.k = "any" -> s.b
    [] v.k = "null" -> ONull(s, v, env, rd)
    [] OTHER -> /\ s.types # <<>> => IsType(v, s.types[1])
                /\ s.types = <<>> /\ s.nullable /\ rd.im /\ ImpliedTypes(s) # {}
                     => \E t \in ImpliedTypes(s) : IsType(v, t)
                /\ OListed(s, v) /\ Leaves(s, v) /\ OSub(s, v, env, rd) /\ OComb(s, v, env, rd)

(* ----------------------------- a JSON schema ----------------------------- *)
RECURSIVE JValid(_, _, _)
JValid(s, v, env) ==
  CASE s.k = "ref" -> JValid(Def(env, s.to), v, env)
    [] s.k = "any" -> s.b
    [] OTHER ->
        /\ s.types # <<>> => \E k \in 1..Len(s.types) : IsType(v, s.types[k])
        /\ s.hasEnum => InEnum(s, v)
        /\ Leaves(s, v)
        /\ v.k = "obj" => \A k \in 1..Len(v.o) :
             LET e == v.o[k]  ps == SelectSeq(s.props, LAMBDA p : p.n = e.n)
             IN IF ps # <<>> THEN JValid(ps[1].s, e.v, env)
                ELSE s.addl = <<>> \/ JValid(s.addl[1], e.v, env)
        /\ v.k = "arr" /\ s.items # <<>> => \A k \in 1..Len(v.a) : JValid(s.items[1], v.a[k], env)
        /\ \A k \in 1..Len(s.allOf) : JValid(s.allOf[k], v, env)
        /\ s.anyOf # <<>> => \E k \in 1..Len(s.anyOf) : JValid(s.anyOf[k], v, env)
        /\ s.oneOf # <<>> => CountTrue([k \in 1..Len(s.oneOf) |-> JValid(s.oneOf[k], v, env)]) = 1
        /\ \A k \in 1..Len(s.not) : ~JValid(s.not[k], v, env)

(* The conversion kept the meaning for v under one allowed reading.          *)
Plain == [im |-> TRUE, en |-> FALSE, cb |-> FALSE, xn |-> FALSE]
Keeps(o, j, v, oenv, jenv, readings) ==
  LET a == JValid(j, v, jenv)
  IN OValid(o, v, oenv, Plain) = a \/ \E rd \in readings : OValid(o, v, oenv, rd) = a

(* ------------------------------ annotations ------------------------------ *)
(* A nullable combination may come wrapped: oneOf (or anyOf) of null and the  *)
(* schema, with the annotations on the outside.                              *)
JustNull(s) == s.k = "s" /\ s.types = <<"null">> /\ ~Combined(s) /\ ~s.hasEnum
Wrapped(j) == /\ j.k = "s" /\ j.types = <<>>
              /\ \E c \in {j.oneOf, j.anyOf} : Len(c) = 2 /\ \E k \in {1, 2} : JustNull(c[k])
Inner(o, j) ==
  IF o.k = "s" /\ j.k = "s" /\ o.nullable /\ o.types = <<>> /\ Combined(o) /\ Wrapped(j)
  THEN LET c == IF Len(j.oneOf) = 2 THEN j.oneOf ELSE j.anyOf IN IF JustNull(c[1]) THEN c[2] ELSE c[1]
  ELSE j
RECURSIVE SameNotes(_, _)
SameNotes(o, j) ==
  CASE o.k = "ref" -> j = o
    [] o.k = "any" -> TRUE
    [] OTHER -> LET i == Inner(o, j) IN
        /\ j.k = "s" /\ i.k = "s" /\ j.unk = <<>> /\ i.unk = <<>>
        /\ [j.ann EXCEPT !.fmt = <<>>] = [o.ann EXCEPT !.fmt = <<>>]
        /\ i.ann.fmt = o.ann.fmt
        /\ \A k \in 1..Len(i.pat) : KnownPat(i.pat[k])
        /\ \A k \in 1..Len(o.props) : LET ps == SelectSeq(i.props, LAMBDA p : p.n = o.props[k].n)
                                      IN Len(ps) = 1 /\ SameNotes(o.props[k].s, ps[1].s)
        /\ Len(i.items) = Len(o.items) /\ \A k \in 1..Len(o.items) : SameNotes(o.items[k], i.items[k])
        /\ \A k \in 1..Len(o.addl) : Len(i.addl) = 1 /\ SameNotes(o.addl[k], i.addl[k])
        /\ Len(i.allOf) = Len(o.allOf) /\ \A k \in 1..Len(o.allOf) : SameNotes(o.allOf[k], i.allOf[k])
        /\ Len(i.anyOf) = Len(o.anyOf) /\ \A k \in 1..Len(o.anyOf) : SameNotes(o.anyOf[k], i.anyOf[k])
        /\ Len(i.oneOf) = Len(o.oneOf) /\ \A k \in 1..Len(o.oneOf) : SameNotes(o.oneOf[k], i.oneOf[k])
        /\ Len(i.not) = Len(o.not) /\ \A k \in 1..Len(o.not) : SameNotes(o.not[k], i.not[k])

(* ------------------------------- conversion ------------------------------ *)
Blank == [k |-> "s", types |-> <<>>, nullable |-> FALSE, hasEnum |-> FALSE, enum |-> <<>>, lo |-> <<>>, hi |-> <<>>,
          mult |-> <<>>, minl |-> -1, maxl |-> -1, pat |-> <<>>, props |-> <<>>, req |-> <<>>, addl |-> <<>>,
          minp |-> -1, maxp |-> -1, items |-> <<>>, mini |-> -1, maxi |-> -1, uniq |-> FALSE,
          allOf |-> <<>>, anyOf |-> <<>>, oneOf |-> <<>>, not |-> <<>>,
          ann |-> [title |-> <<>>, descr |-> <<>>, dflt |-> <<>>, ex |-> <<>>, flags |-> <<>>, fmt |-> <<>>, ext |-> <<>>],
          unk |-> <<>>]
EnumTypes(s) == {TypeOf(s.enum[k]) : k \in 1..Len(s.enum)} \ {"null"}
RECURSIVE Convert(_)
Convert(s) ==
  IF s.k # "s" THEN s ELSE
  LET cs(q) == [k \in 1..Len(q) |-> Convert(q[k])]
      b == [s EXCEPT !.props = [k \in 1..Len(@) |-> [n |-> @[k].n, s |-> Convert(@[k].s)]], !.items = cs(@), !.addl = cs(@),
                     !.allOf = cs(@), !.anyOf = cs(@), !.oneOf = cs(@), !.not = cs(@), !.nullable = FALSE]
      implied == IF ImpliedTypes(s) # {} \/ Combined(s) THEN ImpliedTypes(s) ELSE EnumTypes(s)
      bare == [b EXCEPT !.ann = [Blank.ann EXCEPT !.fmt = s.ann.fmt]]
      null == [Blank EXCEPT !.types = <<"null">>]
  IN CASE ~s.nullable -> b
       [] s.types # <<>> -> [b EXCEPT !.types = <<s.types[1], "null">>]
       [] implied # {} -> [b EXCEPT !.types = SetToSeq(implied) \o <<"null">>]
       [] Combined(s) -> [Blank EXCEPT !.ann = [s.ann EXCEPT !.fmt = <<>>], !.oneOf = <<null, bare>>]
       [] OTHER -> b
=============================================================================
