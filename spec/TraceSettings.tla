---------------------------- MODULE TraceSettings -----------------------------
(* Recorded generations: each event is one generator made after a history of  *)
(* setter calls (or by one use of the macro) and what its output shows.       *)
EXTENDS Settings, Json, TLC
Trace == JsonDeserialize("trace.json")
VARIABLES i, l
E == Trace[i].events[l]
(* recorded lists, as the sets they stand for *)
Set(f, seq) == {f[k] : k \in 1..Len(seq)}
Patches(p) == {[name |-> x.name, rename |-> x.rename, derives |-> ToSet(x.derives)] : x \in ToSet(p)}
Replaced(x) == [name |-> x.name, with |-> x.with, impls |-> ToSet(x.impls)]
Converted(x) == [schema |-> x.schema, with |-> x.with, impls |-> ToSet(x.impls)]
Seen(t) == [mod |-> t.mod, builder |-> t.builder, derives |-> ToSet(t.derives), unknown |-> t.unknown, map |-> t.map,
            crates |-> ToSet(t.crates), patch |-> Patches(t.patch), replace |-> {Replaced(x) : x \in ToSet(t.replace)},
            convert |-> [k \in 1..Len(t.convert) |-> Converted(t.convert[k])]]
Shows(e, s) == /\ e.r = "ok"
               /\ e.interface = s.interface /\ e.tag = s.tag
               /\ ToSet(e.tokens) = Tokens(s)
               /\ Seen(e.told) = Types(s)
Uses(e) == e.futures = e.paginated /\ e.websockets = e.websocket

TInit == i \in 1..Len(Trace) /\ l = 1 /\ SInit
(* the setter calls of the history, one by one *)
TCall == /\ l <= Len(Trace[i].events) /\ E.ev = "call" /\ Call(E.o) /\ l' = l + 1 /\ UNCHANGED i
(* a generator is made: its output is judged when it is used *)
TNew == /\ l <= Len(Trace[i].events) /\ E.ev = "new" /\ New /\ l' = l + 1 /\ UNCHANGED i
TOutput == /\ l <= Len(Trace[i].events) /\ E.ev = "output"
           /\ LET s == gen[E.g].copy IN IF Supported(s) THEN Shows(E, s) /\ Uses(E) ELSE TRUE
           /\ l' = l + 1 /\ UNCHANGED <<i, svars>>
TMacro == /\ l <= Len(Trace[i].events) /\ E.ev = "macro"
          /\ IF MacroOk(E) THEN LET s == MacroFold(E.ops) IN IF Supported(s) THEN Shows(E, s) /\ E.same ELSE TRUE
                           ELSE E.r = "err"
          /\ l' = l + 1 /\ UNCHANGED <<i, svars>>
(* what a compiled client says of itself *)
TSelf == /\ l <= Len(Trace[i].events) /\ E.ev = "self"
         /\ E.baseurl = E.given.baseurl /\ E.version = E.given.version /\ E.inner = E.given.inner
         /\ l' = l + 1 /\ UNCHANGED <<i, svars>>
TDone == l > Len(Trace[i].events) /\ UNCHANGED <<i, l, svars>>
TNext == TCall \/ TNew \/ TOutput \/ TMacro \/ TSelf \/ TDone
=============================================================================
