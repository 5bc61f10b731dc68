------------------------------ MODULE TraceNames ------------------------------
(* Identifiers of really generated clients.  A session is a name and the     *)
(* places it was used in; ascii says whether the specification maps it.      *)
EXTENDS Names, Json, TLC
CONSTANT Known
Trace == JsonDeserialize("trace.json")
VARIABLES i, l
S == Trace[i]
E == S.events[l]
Expected(e) == CASE e.kind = "op" -> OpIdent(S.name, e.inner)
                 [] e.kind = "builder" -> BuilderIdent(S.name, e.inner)
                 [] e.kind = "tag" -> TraitIdent(S.name)
                 [] OTHER -> ParamIdent(S.name, e.body, e.paged)
Like(e, f) == e.kind = f.kind /\ e.inner = f.inner /\ e.body = f.body /\ e.paged = f.paged
(* What is not mapped here must at least depend on the name alone. *)
Consistent(e) == /\ e.ident # <<>> /\ e.ident \notin Keywords
                 /\ \A k \in 1..Len(S.events) : Like(S.events[k], e) => S.events[k].ident = e.ident
(* Everything callable on a client has a name of its own.  Known deviation   *)
(* D33: the stream function of a paginated operation x is called x_stream    *)
(* even if there is an operation of that name.                               *)
Distinct(e) ==
  LET dup == {x \in Range(e.fns) : Len(SelectSeq(e.fns, LAMBDA y : y = x)) > 1}
  IN \/ dup = {}
     \/ "D33" \in Known /\ dup \subseteq Range(e.streams) /\ PrintT(<<"KNOWN", "D33">>)
TInit == i \in 1..Len(Trace) /\ l = 1
Step1 == /\ l <= Len(S.events)
         /\ IF E.kind = "surface" THEN Distinct(E) ELSE IF S.ascii THEN E.ident = Expected(E) ELSE Consistent(E)
         /\ l' = l + 1 /\ UNCHANGED i
TDone == l > Len(S.events) /\ UNCHANGED <<i, l>>
TNext == Step1 \/ TDone
=============================================================================
