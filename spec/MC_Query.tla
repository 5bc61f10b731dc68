------------------------------ MODULE MC_Query ------------------------------
(***************************************************************************)
(* C02, design level: the serializer that wraps an inner                   *)
(* application/x-www-form-urlencoded serializer (Wrap over Top/Part)       *)
(* produces what Expand demands, for every value up to a depth; requests   *)
(* built from two parameters keep every pair; encoding then decoding the   *)
(* query gives back the pairs.  The values are written to scen.json.       *)
(***************************************************************************)
EXTENDS Query, Json
CONSTANT Depth, Transparent

Name == <<112>>
N0 == <<>>
Sc(x) == [k |-> "scalar", s |-> x, c |-> <<>>]
Leaf == {Sc(<<97, 38>>), Sc(<<>>), [k |-> "uvar", s |-> <<118>>, c |-> <<>>],
         [k |-> "none", s |-> <<>>, c |-> <<>>], [k |-> "unit", s |-> <<>>, c |-> <<>>]}
Kid(n, v) == [n |-> n, v |-> v]
One(ks, sub, s) == {[k |-> kk, s |-> s, c |-> <<Kid(N0, v)>>] : kk \in ks, v \in sub}
Many(kk, sub, small) ==
  {[k |-> kk, s |-> <<>>, c |-> <<>>]}
  \cup {[k |-> kk, s |-> <<>>, c |-> <<Kid(<<109>>, v)>>] : v \in sub}
  \cup {[k |-> kk, s |-> <<>>, c |-> <<Kid(<<109>>, v), Kid(<<61, 43>>, u)>>] : v \in sub, u \in small}
  \cup {[k |-> kk, s |-> <<>>, c |-> <<Kid(<<109>>, u), Kid(<<61, 43>>, v)>>] : v \in sub, u \in small}
RECURSIVE Vals(_)
Vals(d) ==
  IF d = 0 THEN Leaf
  ELSE LET sub == Vals(d - 1)
       IN sub \cup One({"some", "newtype"}, sub, <<>>) \cup One({"nvariant"}, sub, <<119>>)
          \cup UNION {Many(kk, sub, Leaf) : kk \in {"seq", "map", "struct"}}
          \cup One({"tuple", "tstruct"}, Leaf, <<>>) \cup One({"tvariant", "svariant"}, Leaf, <<120>>)

(* --- the wrapper ------------------------------------------------------------ *)
RECURSIVE Wrap(_, _)
Wrap(n, v) ==
  CASE v.k = "scalar" -> Part(n, v)
    [] v.k = "uvar" -> Part(n, Sc(v.s))
    [] v.k = "some" -> Wrap(n, v.c[1].v)
    [] v.k = "newtype" -> IF Transparent THEN Wrap(n, v.c[1].v) ELSE Top(v.c[1].v)
    [] v.k = "nvariant" -> Part(v.s, v.c[1].v)
    [] v.k = "seq" -> Join([j \in 1..Len(v.c) |-> Part(n, v.c[j].v)])
    [] OTHER -> Top(v)

(* --- encoding ----------------------------------------------------------------- *)
HexD(n) == IF n < 10 THEN 48 + n ELSE 55 + n
FormByte(c) == IF c = SPACE THEN <<PLUS>>
               ELSE IF c \in (48..57) \cup (65..90) \cup (97..122) \cup {42, 45, 46, 95} THEN <<c>>
               ELSE <<PCT, HexD(c \div 16), HexD(c % 16)>>
FormEnc(s) == Concat([k \in 1..Len(s) |-> FormByte(s[k])])
EncPairs(ps) == Concat([k \in 1..Len(ps) |-> (IF k = 1 THEN <<>> ELSE <<AMP>>) \o FormEnc(ps[k][1]) \o <<EQS>> \o FormEnc(ps[k][2])])

VARIABLES a, b, q, ph
Init == a \in Vals(Depth) /\ b = Sc(<<>>) /\ q = Ok(<<>>) /\ ph = 0
Next == \/ ph = 0 /\ ph' = 1 /\ q' = AddTo(q, Name, a) /\ UNCHANGED <<a, b>>
        \/ ph = 1 /\ ph' = 2 /\ b' \in Leaf \cup One({"nvariant", "seq"}, Leaf, <<119>>)
                  /\ q' = AddTo(q, <<114>>, b') /\ UNCHANGED a
Agree(n, v) == LET e == Expand(n, v) IN e.r = "free" \/ e = Wrap(n, v)
WrapperIsRight == Agree(Name, a) /\ Agree(<<114>>, b)
(* A structured value sent as a form body carries exactly its members.     *)
FormRight == (a.k \in {"map", "struct"} /\ Form(a).r = "ok") =>
   /\ FormPairs(EncPairs(Form(a).pairs)).pairs = Form(a).pairs
   /\ Form(a) = Expand(<<>>, a)
RoundTrip == q.r = "ok" => FormPairs(EncPairs(q.pairs)) = [ok |-> TRUE, pairs |-> q.pairs]
Undisturbed ==
  (ph = 2 /\ q.r = "ok") => q.pairs = Expand(Name, a).pairs \o Expand(<<114>>, b).pairs
ErrorIsFinal == (ph >= 1 /\ Expand(Name, a).r = "err") => q.r = "err"
ASSUME JsonSerialize("scen.json", SetToSeq(Vals(Depth)))
=============================================================================
