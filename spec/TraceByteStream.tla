--------------------------- MODULE TraceByteStream ---------------------------
(***************************************************************************)
(* Sessions: [plan, events], events: hand(status) | chunk(bytes) |         *)
(* end(how).  The server's own steps happen as they are needed, so that    *)
(* explaining a trace is deterministic.                                    *)
(***************************************************************************)
EXTENDS ByteStream, Json
Trace == JsonDeserialize("trace.json")
VARIABLES i, l
S == Trace[i]
E == S.events[l]
TInit == /\ i \in 1..Len(Trace) /\ l = 1
         /\ plan = S.plan /\ wire = 0 /\ over = FALSE /\ handed = FALSE /\ got = <<>> /\ end = "no"
THand == /\ E.e = "hand" /\ E.status = S.status /\ E.branch = S.branch
         /\ Hand /\ l' = l + 1 /\ UNCHANGED i
TServe == /\ handed /\ ~over /\ wire' = plan.cut /\ over' = TRUE
          /\ UNCHANGED <<plan, handed, got, end, i, l>>
TChunk == /\ E.e = "chunk" /\ over /\ l' = l + 1 /\ UNCHANGED i
          /\ IF E.bytes = <<>> THEN UNCHANGED bvars
             ELSE Yield(Len(E.bytes)) /\ SubSeq(got', Len(got) + 1, Len(got')) = E.bytes
TEnd == /\ E.e = "end" /\ l' = l + 1 /\ UNCHANGED i
        /\ IF E.how = "clean" THEN CleanEnd ELSE E.how = "error" /\ ErrorEnd
TDone == l > Len(S.events) /\ end # "no" /\ UNCHANGED <<i, l, bvars>>
TNext == (l <= Len(S.events) /\ (THand \/ TServe \/ TChunk \/ TEnd)) \/ TDone
=============================================================================
