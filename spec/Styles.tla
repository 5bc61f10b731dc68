------------------------------- MODULE Styles ---------------------------------
(***************************************************************************)
(* The interface styles of a generated client (C20): where the operations  *)
(* of a document can be called, for every style.                           *)
(*                                                                         *)
(* A document is a sequence of operations [name, tags].  The surface of a  *)
(* client is a bag (a function from entries to counts) of entries          *)
(* <<container, function>>; the containers are the client itself and one   *)
(* extension trait for each name a tag maps to.  Everything needed to call *)
(* the operations is offered by the prelude.                               *)
(*                                                                         *)
(* Two readings that must agree: the surface in one piece (SurfaceOf) and  *)
(* the generator walking the operations and their tags (Emit).             *)
(***************************************************************************)
EXTENDS Names, TLC

CLIENT == <<67,108,105,101,110,116>>
Styles3 == {"positional", "builder", "separate"}

Traits(op) == {TraitIdent(op.tags[k]) : k \in 1..Len(op.tags)}
Homes(style, op) == IF style = "separate" /\ op.tags # <<>> THEN Traits(op) ELSE {CLIENT}
FnName(op, inner) == OpIdent(op.name, inner)

Entries(style, ops, inner) == UNION {{<<h, FnName(ops[k], inner)>> : h \in Homes(style, ops[k])} : k \in 1..Len(ops)}
(* distinct operations have distinct names, so every entry counts once *)
SurfaceOf(style, ops, inner) == [e \in Entries(style, ops, inner) |-> 1]
PreludeOf(style, ops) == {CLIENT} \cup (IF style = "separate" THEN UNION {Traits(ops[k]) : k \in 1..Len(ops)} ELSE {})

(* --- the generator ------------------------------------------------------- *)
(* at <<k, t>>: operation k, its t-th tag                                   *)
VARIABLES doc, style, k, t, surface, prelude
svars == <<doc, style, k, t, surface, prelude>>
Count(s, e) == IF e \in DOMAIN s THEN s[e] ELSE 0
Put(s, e) == [x \in DOMAIN s \cup {e} |-> IF x = e THEN Count(s, e) + 1 ELSE s[x]]
(* What a tag contributes: a tag mapping to the trait of an earlier tag of  *)
(* the same operation contributes nothing.                                  *)
OnClient == /\ k <= Len(doc) /\ (style # "separate" \/ doc[k].tags = <<>>)
            /\ surface' = Put(surface, <<CLIENT, FnName(doc[k], FALSE)>>)
            /\ k' = k + 1 /\ t' = 1 /\ UNCHANGED <<doc, style, prelude>>
OnTrait == /\ k <= Len(doc) /\ style = "separate" /\ t <= Len(doc[k].tags)
           /\ LET tr == TraitIdent(doc[k].tags[t])
                  again == \E j \in 1..(t - 1) : TraitIdent(doc[k].tags[j]) = tr
              IN /\ surface' = IF again THEN surface ELSE Put(surface, <<tr, FnName(doc[k], FALSE)>>)
                 /\ prelude' = prelude \cup {tr}
           /\ t' = t + 1 /\ UNCHANGED <<doc, style, k>>
NextOp == /\ k <= Len(doc) /\ style = "separate" /\ doc[k].tags # <<>> /\ t > Len(doc[k].tags)
          /\ k' = k + 1 /\ t' = 1 /\ UNCHANGED <<doc, style, surface, prelude>>
Emit == OnClient \/ OnTrait \/ NextOp
Finished == k > Len(doc)
=============================================================================
