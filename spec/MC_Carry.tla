------------------------------ MODULE MC_Carry --------------------------------
EXTENDS Carry, Json, TLC, SequencesExt
CONSTANT Pairs
All == Carried \cup Beyond \cup {Dangling}
Par(n) == {[name |-> n, level |-> l, is |-> x] : l \in {"op", "path"}, x \in All}
B(m, s) == [media |-> m, schema |-> s]
NoBody == B("none", "none")
Bodies == {B(m, "none") : m \in {"none", "empty", "dangling"}} \cup {B("several", "string")} \cup {B(m, "string") : m \in Alien}
          \cup {B(m, s) : m \in Raw, s \in {"string", "binary", "none"} \cup More}
          \cup {B(m, s) : m \in Encoded, s \in {"none", "encoding", "string", "object", "integer", "array", "enum", "nullable"}}
Op(ps, b, r) == [params |-> ps, body |-> b, resp |-> r]
Good == Op(<<>>, NoBody, "json")
(* no two of one level with one name *)
Fine(o) == \A j, k \in 1..Len(o.params) : j # k => o.params[j].name # o.params[k].name \/ o.params[j].level # o.params[k].level
Ops == {Op(<<p>>, NoBody, "json") : p \in Par("a")}
       \cup {o \in {Op(<<p, q>>, NoBody, "json") : p \in Par("a"), q \in Par("a") \cup (IF Pairs THEN Par("b") ELSE {})} : Fine(o)}
       \cup {Op(<<>>, b, "json") : b \in Bodies}
       \cup {Op(<<[name |-> "a", level |-> "op", is |-> x]>>, b, "json") : x \in Carried, b \in Bodies}
       \cup {Op(<<>>, NoBody, "dangling"), Good}
Docs == {<<o>> : o \in Ops} \cup {<<Good, o>> : o \in Ops} \cup {<<o, Good>> : o \in Ops} \cup {<<>>}
MInit == CInit(Docs)
ASSUME JsonSerialize("scen.json", SetToSeq(Docs))
=============================================================================
