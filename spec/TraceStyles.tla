----------------------------- MODULE TraceStyles ------------------------------
(***************************************************************************)
(* Observations of really generated clients against Styles.  A session has *)
(* events of one of three kinds:                                           *)
(*   surface(style, inner, entries, prelude)  the public functions of the  *)
(*       client and its traits, and what its prelude offers                *)
(*   code(style, hash)   the code one run of the generator gave            *)
(*   call(style, req, out)  what one style sent for the same arguments and *)
(*       made of the same answer                                           *)
(* Codes of the same style and calls of all styles must not differ from    *)
(* the first one seen.                                                     *)
(***************************************************************************)
EXTENDS Names, Json, TLC
Trace == JsonDeserialize("trace.json")
ST == INSTANCE Styles WITH doc <- 0, style <- 0, k <- 0, t <- 0, surface <- 0, prelude <- 0
VARIABLES i, l, first
S == Trace[i]
E == S.events[l]
None == [none |-> TRUE]
Bag(s) == [x \in Range(s) |-> Len(SelectSeq(s, LAMBDA y : y = x))]
Seen(st) == st \in DOMAIN first
Put(f, st, v) == [x \in DOMAIN f \cup {st} |-> IF x = st THEN v ELSE f[x]]

SurfaceOK == /\ Bag(E.entries) = ST!SurfaceOf(E.style, S.ops, E.inner)
             /\ Bag(E.prelude) = [x \in ST!PreludeOf(E.style, S.ops) |-> 1]
(* requests: one function of the multiset of headers, the rest literally    *)
Norm(r) == [method |-> r.method, target |-> r.target, body |-> r.body, headers |-> Bag(r.headers)]
NormAll(rs) == [n \in 1..Len(rs) |-> Norm(rs[n])]
Value == CASE E.e = "code" -> <<E.hash>>
           [] E.e = "call" -> <<NormAll(E.reqs), [E.out EXCEPT !.headers = Bag(@)]>>
           [] OTHER -> <<>>
Key == IF E.e = "code" THEN E.style ELSE "any"

TInit == i \in 1..Len(Trace) /\ l = 1 /\ first = <<>>
TSurface == /\ l <= Len(S.events) /\ E.e = "surface" /\ SurfaceOK
            /\ UNCHANGED first
TSame == /\ l <= Len(S.events) /\ E.e \in {"code", "call"}
         /\ IF Seen(Key) THEN first[Key] = Value /\ UNCHANGED first
            ELSE first' = Put(first, Key, Value)
TNext == \/ (TSurface \/ TSame) /\ l' = l + 1 /\ UNCHANGED i
         \/ l > Len(S.events) /\ UNCHANGED <<i, l, first>>
=============================================================================
