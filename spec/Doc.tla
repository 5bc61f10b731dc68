-------------------------------- MODULE Doc -----------------------------------
(***************************************************************************)
(* Which documents the generator serves (C13).                             *)
(* doc = [version : bytes,                                                 *)
(*        paths : Seq([ref : BOOLEAN, ops : Seq([has : BOOLEAN, id])])]    *)
(***************************************************************************)
EXTENDS Bytes

V30 == <<51, 46, 48, 46>>                            \* "3.0."
Version30(v) == IsPrefix(V30, v) /\ Len(v) > Len(V30)
OpsOf(d) == Concat([k \in 1..Len(d.paths) |-> IF d.paths[k].ref THEN <<>> ELSE d.paths[k].ops])
(* What the property says. *)
Served(d) ==
  /\ Version30(d.version)
  /\ \A k \in 1..Len(d.paths) : ~d.paths[k].ref
  /\ \A j \in 1..Len(OpsOf(d)) : OpsOf(d)[j].has
  /\ \A j, k \in 1..Len(OpsOf(d)) : j # k => OpsOf(d)[j].id # OpsOf(d)[k].id

(* What a generator has to do: one pass over the document. *)
VARIABLES d, path, op, seen, verdict
dvars == <<d, path, op, seen, verdict>>
DInit(docs) == /\ d \in docs /\ path = 1 /\ op = 1 /\ seen = {}
               /\ verdict = IF Version30(d.version) THEN "reading" ELSE "refused"
Reading == verdict = "reading"
Finish == /\ Reading /\ path > Len(d.paths) /\ verdict' = "served" /\ UNCHANGED <<d, path, op, seen>>
Reference == /\ Reading /\ path <= Len(d.paths) /\ d.paths[path].ref
             /\ verdict' = "refused" /\ UNCHANGED <<d, path, op, seen>>
NextPath == /\ Reading /\ path <= Len(d.paths) /\ ~d.paths[path].ref /\ op > Len(d.paths[path].ops)
            /\ path' = path + 1 /\ op' = 1 /\ UNCHANGED <<d, seen, verdict>>
Operation == /\ Reading /\ path <= Len(d.paths) /\ ~d.paths[path].ref /\ op <= Len(d.paths[path].ops)
             /\ LET o == d.paths[path].ops[op]
                IN IF ~o.has \/ o.id \in seen
                   THEN verdict' = "refused" /\ UNCHANGED <<d, path, op, seen>>
                   ELSE seen' = seen \cup {o.id} /\ op' = op + 1 /\ UNCHANGED <<d, path, verdict>>
DNext == Finish \/ Reference \/ NextPath \/ Operation
ScanIsProperty == ~Reading => (verdict = "served") = Served(d)
=============================================================================
