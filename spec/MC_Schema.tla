------------------------------ MODULE MC_Schema -------------------------------
(* C19, design level: for every small schema, conversion keeps the meaning    *)
(* for every small value, and carries the annotations over.  The schemas are  *)
(* written out for the real conversion.                                       *)
EXTENDS Schema, Json, TLC
CONSTANT Most, Wrong
NumOf(i) == [neg |-> i < 0, i |-> (LET a == IF i < 0 THEN -i ELSE i IN IF a = 0 THEN <<>> ELSE IF a < 10 THEN <<a>> ELSE <<a \div 10, a % 10>>), f |-> <<>>]
Half == [neg |-> FALSE, i |-> <<2>>, f |-> <<5>>]
Nul == [k |-> "null"]
Num(i) == [k |-> "num", n |-> NumOf(i)]
Str(s) == [k |-> "str", s |-> s]
Arr(a) == [k |-> "arr", a |-> a]
Obj(o) == [k |-> "obj", o |-> o]
P == <<112>>  Q == <<113>>
Vals == {Nul, [k |-> "bool", b |-> TRUE], Num(0), Num(2), Num(3), Num(4), Num(-3), [k |-> "num", n |-> Half],
         Str(<<>>), Str(<<97>>), Str(<<97, 98>>), Str(<<120, 98>>), Str(<<97, 233, 128512>>),
         Arr(<<>>), Arr(<<Num(2)>>), Arr(<<Num(2), Num(2)>>), Arr(<<Nul, Str(<<97>>)>>),
         Obj(<<>>), Obj(<<[n |-> P, v |-> Num(2)]>>), Obj(<<[n |-> P, v |-> Nul]>>), Obj(<<[n |-> Q, v |-> Str(<<97>>)]>>),
         Obj(<<[n |-> P, v |-> Str(<<97>>)], [n |-> Q, v |-> Num(2)]>>)}
T(t) == [Blank EXCEPT !.types = <<t>>]
NT(t) == [T(t) EXCEPT !.nullable = TRUE]
Kws == {"minl", "maxl", "pat", "lo", "xlo", "hi", "xhi", "mult", "props", "req", "noaddl", "addl", "minp", "maxp", "items", "mini", "maxi", "uniq",
        "enum", "enumn", "enum0", "fmt", "allOf", "anyOf", "oneOf", "not", "ann"}
Put(s, w) ==
  CASE w = "minl" -> [s EXCEPT !.minl = 2] [] w = "maxl" -> [s EXCEPT !.maxl = 1] [] w = "pat" -> [s EXCEPT !.pat = <<"^a">>]
    [] w = "lo" -> [s EXCEPT !.lo = <<[v |-> NumOf(2), x |-> FALSE]>>] [] w = "xlo" -> [s EXCEPT !.lo = <<[v |-> NumOf(2), x |-> TRUE]>>]
    [] w = "hi" -> [s EXCEPT !.hi = <<[v |-> NumOf(3), x |-> FALSE]>>] [] w = "xhi" -> [s EXCEPT !.hi = <<[v |-> NumOf(3), x |-> TRUE]>>]
    [] w = "mult" -> [s EXCEPT !.mult = <<NumOf(2)>>]
    [] w = "props" -> [s EXCEPT !.props = <<[n |-> P, s |-> NT("integer")]>>] [] w = "req" -> [s EXCEPT !.req = <<P>>]
    [] w = "noaddl" -> [s EXCEPT !.addl = <<[k |-> "any", b |-> FALSE]>>] [] w = "addl" -> [s EXCEPT !.addl = <<T("string")>>]
    [] w = "minp" -> [s EXCEPT !.minp = 1] [] w = "maxp" -> [s EXCEPT !.maxp = 1]
    [] w = "items" -> [s EXCEPT !.items = <<T("number")>>] [] w = "mini" -> [s EXCEPT !.mini = 1] [] w = "maxi" -> [s EXCEPT !.maxi = 1]
    [] w = "uniq" -> [s EXCEPT !.uniq = TRUE]
    [] w = "enum" -> [s EXCEPT !.hasEnum = TRUE, !.enum = <<Str(<<97>>), Num(2)>>]
    [] w = "enumn" -> [s EXCEPT !.hasEnum = TRUE, !.enum = <<Str(<<97>>), Nul>>]
    [] w = "enum0" -> [s EXCEPT !.hasEnum = TRUE, !.enum = <<Nul>>]
    [] w = "fmt" -> [s EXCEPT !.ann.fmt = <<"f">>]
    [] w = "allOf" -> [s EXCEPT !.allOf = <<T("string")>>] [] w = "anyOf" -> [s EXCEPT !.anyOf = <<T("string"), NT("integer")>>]
    [] w = "oneOf" -> [s EXCEPT !.oneOf = <<T("number"), T("integer")>>] [] w = "not" -> [s EXCEPT !.not = <<T("array")>>]
    [] OTHER -> [s EXCEPT !.ann = [title |-> <<"t">>, descr |-> <<"d">>, dflt |-> <<"v">>, ex |-> <<"e">>, flags |-> <<"deprecated">>, fmt |-> @.fmt, ext |-> <<"x-a">>]]
Clash == {{"lo", "xlo"}, {"hi", "xhi"}, {"noaddl", "addl"}, {"enum", "enumn"}, {"enum", "enum0"}, {"enumn", "enum0"}}
Types == {<<>>, <<"string">>, <<"number">>, <<"integer">>, <<"boolean">>, <<"array">>, <<"object">>}
Fits(W, w) == w \notin W /\ ~\E c \in Clash : c \subseteq W \cup {w}
Grow(F) == F \cup UNION {{W \cup {w} : w \in {x \in Kws : Fits(W, x)}} : W \in F}
RECURSIVE Times(_)
Times(n) == IF n = 0 THEN {{}} ELSE Grow(Times(n - 1))
Build(t, n, W) == FoldLeft(Put, [Blank EXCEPT !.types = t, !.nullable = n], SetToSeq(W))
VARIABLES s, used
(* A schema is written keyword by keyword.                                   *)
Init == s \in {Build(t, n, {}) : t \in Types, n \in BOOLEAN} /\ used = {}
Next == /\ Cardinality(used) < Most
        /\ \E w \in {x \in Kws : Fits(used, x)} : s' = Put(s, w) /\ used' = used \cup {w}
(* A wrong conversion, to see that the question is not vacuous.              *)
Conv(x) ==
  CASE Wrong = "none" -> Convert(x)
    [] Wrong = "excl" -> Convert([x EXCEPT !.hi = [k \in 1..Len(@) |-> [@[k] EXCEPT !.x = FALSE]]])
    [] Wrong = "arraytype" -> IF x.nullable /\ x.types = <<>> /\ HasNum(x) THEN [Convert(x) EXCEPT !.types = <<"array", "null">>] ELSE Convert(x)
    [] OTHER -> Convert([x EXCEPT !.nullable = FALSE])
Means == \A w \in Vals : Keeps(s, Conv(s), w, <<>>, <<>>, Reading)
Notes == SameNotes(s, Conv(s))
(* Without the known finding every reading stays one of OpenAPI's.           *)
Strict == ~(s.nullable /\ s.types = <<>> /\ Combined(s)) => \A w \in Vals : Keeps(s, Conv(s), w, <<>>, <<>>, {rd \in Reading : ~rd.xn})
ASSUME JsonSerialize("vals.json", SetToSeq(Vals))
ASSUME JsonSerialize("scen.json", SetToSeq({Build(t, n, W) : t \in Types, n \in BOOLEAN, W \in Times(Most)}))
=============================================================================
