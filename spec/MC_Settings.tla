----------------------------- MODULE MC_Settings ------------------------------
EXTENDS Settings, Json, TLC
CONSTANTS MaxCalls, MaxNew
O(set, key, a, b, xs) == [set |-> set, key |-> key, a |-> a, b |-> b, xs |-> xs]
Ops == {O("interface", "", "Positional", "", <<>>), O("interface", "", "Builder", "", <<>>), O("tag", "", "Merged", "", <<>>), O("tag", "", "Separate", "", <<>>),
        O("inner", "", "zzh_i1", "", <<>>), O("inner", "", "zzh_i2", "", <<>>)}
       \cup {O(h, "", v, "", <<>>) : h \in {"pre", "preA", "post", "postA"}, v \in {"zzh_h1", "zzh_h2"}}
       \cup {O("derive", "", v, "", <<>>) : v \in {"zz::D1", "zz::D2"}}
       \cup {O("unknown", "", v, "", <<>>) : v \in {"Generate", "Allow", "Deny"}}
       \cup {O("map", "", v, "", <<>>) : v \in {"zz::M1", "zz::M2"}}
       \cup {O("crate", k, v, r, <<>>) : k \in {"c1", "c2"}, v \in {"1.0.0", "*"}, r \in {"", "rn"}}
       \cup {O("patch", k, r, "", xs) : k \in {"T1", "T2"}, r \in {"", "Rn"}, xs \in {<<>>, <<"zz::P">>}}
       \cup {O("replace", k, v, "", xs) : k \in {"T1", "T2"}, v \in {"zz::R1", "zz::R2"}, xs \in {<<>>, <<"Display">>}}
       \cup {O("convert", k, v, "", xs) : k \in {"{\"format\":\"zz-a\",\"type\":\"string\"}", "{\"format\":\"zz-b\",\"type\":\"integer\"}"}, v \in {"zz::C1", "zz::C2"}, xs \in {<<"FromStr">>}}
MNext == \/ Len(hist) < MaxCalls /\ \E o \in Ops : Call(o)
         \/ Len(gen) < MaxNew /\ New
Pairs == {<<o, p>> : o \in Ops, p \in Ops}
ASSUME JsonSerialize("ops.json", SetToSeq(Ops))
=============================================================================
