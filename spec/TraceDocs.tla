------------------------------ MODULE TraceDocs -------------------------------
(* Recorded generations: one structure, several sets of texts.  Within an      *)
(* interface style the code is always the same; what each method's            *)
(* documentation says is compared with the texts of its operation, and it says *)
(* nothing (marked) that belongs elsewhere.                                     *)
EXTENDS Docs, Json
Trace == JsonDeserialize("trace.json")
VARIABLES i, l, seen
S == Trace[i]
E == S.events[l]
TInit == i \in 1..Len(Trace) /\ l = 1 /\ seen = [s \in {} |-> ""] /\ ops = <<>> /\ text = <<>> /\ at = 0 /\ code = <<>> /\ docs = <<>>
(* an operation's places, each text once *)
Says(o, d) ==
  /\ o.summary # <<>> => Within(Bare(o.summary), d)
  /\ o.description # <<>> => Within(o.description, d)
  /\ \A k \in 1..Len(o.params) : o.params[k].description # <<>> => Within(o.params[k].description, d)
Marks(o) == ToSet(o.marks)
Clean(o, d) == \A k \in 1..Len(E.ops) : E.ops[k].id # o.id => \A m \in Marks(E.ops[k]) : ~Within(m, d)
(* every method is documented as its operation's (the call, or its stream, which *)
(* has no page token)                                                            *)
Belongs(m) == \E k \in 1..Len(E.ops) : LET o == E.ops[k] IN
                 m.op = o.id /\ Says([o EXCEPT !.params = IF m.stream THEN SelectSeq(@, LAMBDA q : ~q.token) ELSE @], m.doc) /\ Clean(o, m.doc)
Documented ==
  /\ \A k \in 1..Len(E.methods) : Belongs(E.methods[k])
  /\ \A k \in 1..Len(E.ops) : \E j \in 1..Len(E.methods) : E.methods[j].op = E.ops[k].id /\ ~E.methods[j].stream
  /\ Within(E.title, E.client) /\ (E.about # <<>> => Within(E.about, E.client)) /\ (E.terms # <<>> => Within(E.terms, E.client))
  /\ \A k \in 1..Len(E.traits) : Within(E.traits[k].text, E.traits[k].doc)
TGen == /\ l <= Len(S.events)
        /\ E.r = "ok"
        /\ IF E.style \in DOMAIN seen THEN E.code = seen[E.style] /\ UNCHANGED seen ELSE seen' = (E.style :> E.code) @@ seen
        /\ E.mock \/ Documented
        /\ l' = l + 1 /\ UNCHANGED <<i, dvars>>
TDone == l > Len(S.events) /\ UNCHANGED <<i, l, seen, dvars>>
TNext == TGen \/ TDone
=============================================================================
