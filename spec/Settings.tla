------------------------------- MODULE Settings -------------------------------
(* C21.  The settings a client is generated with: a record filled in by a     *)
(* history of calls, one slot per call.  A generator takes a copy of it       *)
(* (New); what it generates is a function of that copy alone.                 *)
EXTENDS Naturals, Sequences, FiniteSets, SequencesExt
(* one call: [set |-> slot, key |-> name, a |-> text, b |-> text, xs |-> <<text>>] *)
VARIABLES st, hist, gen
svars == <<st, hist, gen>>

Blank == [interface |-> "Positional", tag |-> "Merged", inner |-> "", pre |-> "", preA |-> "", post |-> "", postA |-> "",
          derives |-> {}, unknown |-> "Generate", map |-> "", crates |-> {}, patch |-> {}, replace |-> {}, convert |-> <<>>]

Keyed(set, r) == {x \in set : x.name # r.name} \cup {r}
Apply(s, o) ==
  CASE o.set \in {"interface", "tag", "inner", "pre", "preA", "post", "postA", "unknown", "map"} -> [s EXCEPT ![o.set] = o.a]
    [] o.set = "derive"  -> [s EXCEPT !.derives = @ \cup {o.a}]
    [] o.set = "crate"   -> [s EXCEPT !.crates = Keyed(@, [name |-> o.key, version |-> o.a, rename |-> o.b])]
    [] o.set = "patch"   -> [s EXCEPT !.patch = Keyed(@, [name |-> o.key, rename |-> o.a, derives |-> ToSet(o.xs)])]
    [] o.set = "replace" -> [s EXCEPT !.replace = Keyed(@, [name |-> o.key, with |-> o.a, impls |-> ToSet(o.xs)])]
    [] o.set = "convert" -> [s EXCEPT !.convert = Append(@, [schema |-> o.key, with |-> o.a, impls |-> ToSet(o.xs)])]

Fold(h) == FoldLeft(Apply, Blank, h)

(* --- what is promised of a generated client, given the copy s ------------- *)
Tokens(s) == {s.inner, s.pre, s.preA, s.post, s.postA} \ {""}
Types(s) == [mod |-> "types", builder |-> (s.interface = "Builder"), derives |-> s.derives, unknown |-> s.unknown, map |-> s.map,
             crates |-> s.crates, patch |-> s.patch, replace |-> s.replace, convert |-> s.convert]
(* the one combination progenitor does not implement *)
Supported(s) == ~(s.interface = "Positional" /\ s.tag = "Separate")

(* --- the machine ----------------------------------------------------------- *)
SInit == st = Blank /\ hist = <<>> /\ gen = <<>>
Call(o) == st' = Apply(st, o) /\ hist' = Append(hist, o) /\ UNCHANGED gen
New == gen' = Append(gen, [at |-> Len(hist), copy |-> st]) /\ UNCHANGED <<st, hist>>

(* --- the properties --------------------------------------------------------- *)
Slot(o) == IF o.set \in {"crate", "patch", "replace"} THEN <<o.set, o.key>> ELSE <<o.set, "">>
Single == {"interface", "tag", "inner", "pre", "preA", "post", "postA", "unknown", "map", "crate", "patch", "replace"}
(* a call that a later call to the same slot overrides may as well not have been made *)
Without(h, k) == SubSeq(h, 1, k - 1) \o SubSeq(h, k + 1, Len(h))
LastWins == \A k \in 1..Len(hist) : (hist[k].set \in Single /\ \E m \in (k+1)..Len(hist) : Slot(hist[m]) = Slot(hist[k]))
                                    => Fold(Without(hist, k)) = st
(* calls to different slots commute *)
Swap(h, k) == [h EXCEPT ![k] = h[k + 1], ![k + 1] = h[k]]
Commute == \A k \in 1..(Len(hist) - 1) : Slot(hist[k]) # Slot(hist[k + 1]) => Fold(Swap(hist, k)) = st
(* the last call of every slot is in effect, and nothing is that was not given *)
InEffect == \A k \in 1..Len(hist) :
   LET o == hist[k] IN
   /\ (o.set \in {"interface", "tag", "inner", "pre", "preA", "post", "postA", "unknown", "map"} /\ \A m \in (k+1)..Len(hist) : hist[m].set # o.set)
        => st[o.set] = o.a
   /\ o.set = "derive" => o.a \in st.derives
NothingElse == /\ \A f \in {"inner", "pre", "preA", "post", "postA", "map"} : (\A k \in 1..Len(hist) : hist[k].set # f) => st[f] = ""
               /\ \A d \in st.derives : \E k \in 1..Len(hist) : hist[k].set = "derive" /\ hist[k].a = d
               /\ Len(st.convert) = Cardinality({k \in 1..Len(hist) : hist[k].set = "convert"})
(* a generator keeps the copy it was made with *)
Kept == \A g \in ToSet(gen) : g.copy = Fold(SubSeq(hist, 1, g.at))

(* --- the macro: the same settings written as key-value pairs ---------------- *)
(* impls are written as bounds: FromStr and Display unless taken away with ?   *)
Traits == {"FromStr", "Display", "Default"}
Bound(set, b) == IF b.name \notin Traits THEN set ELSE IF b.maybe THEN set \ {b.name} ELSE set \cup {b.name}
Impls(bs) == FoldLeft(Bound, {"FromStr", "Display"}, bs)

IsDigit(c) == c \in 48..57
(* a number without leading zeros *)
Num(s) == Len(s) > 0 /\ (\A k \in 1..Len(s) : IsDigit(s[k])) /\ (s[1] = 48 => Len(s) = 1)
Dots(s) == {k \in 1..Len(s) : s[k] = 46}
Version(s) == \/ s \in {<<42>>, <<33>>}
              \/ \E p, q \in Dots(s) : /\ p < q /\ Cardinality(Dots(s)) = 2
                                       /\ Num(SubSeq(s, 1, p - 1)) /\ Num(SubSeq(s, p + 1, q - 1)) /\ Num(SubSeq(s, q + 1, Len(s)))
CrateName(s) == \A k \in 1..Len(s) : s[k] \in (48..57) \cup (65..90) \cup (97..122) \cup {45, 95}
Keys == {"spec", "interface", "tags", "inner_type", "pre_hook", "pre_hook_async", "post_hook", "post_hook_async", "map_type",
         "derives", "unknown_crates", "crates", "patch", "replace", "convert"}
MacroOk(m) == /\ \A k \in ToSet(m.keys) : k \in Keys
              /\ Len(m.keys) = Cardinality(ToSet(m.keys))
              /\ "spec" \in ToSet(m.keys)
              /\ m.readable
              /\ \A o \in ToSet(m.ops) :
                   /\ o.set = "interface" => o.a \in {"Positional", "Builder"}
                   /\ o.set = "tag" => o.a \in {"Merged", "Separate"}
                   /\ o.set = "unknown" => o.a \in {"Generate", "Allow", "Deny"}
                   /\ o.set = "crate" => CrateName(o.kb) /\ CrateName(o.bb) /\ Version(o.ab)
(* "new" = "orig@version" is the crate orig, known here as new *)
MacroOp(o) == CASE o.set = "crate" /\ o.b # "" -> [o EXCEPT !.key = o.b, !.b = o.key]
                [] o.set \in {"replace", "convert"} -> [o EXCEPT !.xs = SetToSeq(Impls(o.bs))]
                [] OTHER -> o
MacroFold(ops) == Fold([k \in 1..Len(ops) |-> MacroOp(ops[k])])
=============================================================================
