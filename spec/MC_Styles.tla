------------------------------ MODULE MC_Styles -------------------------------
(* Every document of up to MaxOps operations with up to two tags each, from  *)
(* a few tags of which some map to the same trait.                           *)
EXTENDS Styles, Json
CONSTANTS MaxOps
(* a  A  a-b  a_b  type                                                       *)
Tags == {<<97>>, <<65>>, <<97,45,98>>, <<97,95,98>>, <<116,121,112,101>>}
TagLists == UNION {[1..n -> Tags] : n \in 0..2}
OpNames == << <<111,49>>, <<110,101,119>>, <<111,51>> >>       \* o1 new o3
Docs == UNION {{[x \in 1..n |-> [name |-> OpNames[x], tags |-> f[x]]] : f \in [1..n -> TagLists]} : n \in 1..MaxOps}
MInit == /\ doc \in Docs /\ style \in Styles3 /\ k = 1 /\ t = 1
         /\ surface = <<>> /\ prelude = {CLIENT}
MNext == Emit \/ (Finished /\ UNCHANGED svars)
TypeOK == /\ k \in 1..(Len(doc) + 1) /\ \A e \in DOMAIN surface : surface[e] > 0
(* Never does an operation have two entries in one container. *)
Once == \A e \in DOMAIN surface : surface[e] = 1
Agrees == Finished => surface = SurfaceOf(style, doc, FALSE) /\ prelude = PreludeOf(style, doc)
(* Reachable: exactly once in the merged styles, through each tag otherwise. *)
Reachable == Finished => \A x \in 1..Len(doc) :
  LET es == {e \in DOMAIN surface : e[2] = FnName(doc[x], FALSE)}
  IN IF style = "separate" /\ doc[x].tags # <<>>
     THEN \A y \in 1..Len(doc[x].tags) : <<TraitIdent(doc[x].tags[y]), FnName(doc[x], FALSE)>> \in es
     ELSE es = {<<CLIENT, FnName(doc[x], FALSE)>>}
(* Every container that is not the client is offered by the prelude. *)
Offered == Finished => \A e \in DOMAIN surface : e[1] \in prelude
ASSUME JsonSerialize("scen.json", SetToSeq(UNION {{[x \in 1..n |-> [name |-> OpNames[x], tags |-> f[x]]] : f \in [1..n -> TagLists]} : n \in 1..2}))
=============================================================================
