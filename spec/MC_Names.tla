------------------------------- MODULE MC_Names -------------------------------
(* C15, design level: over every name of a small but hostile alphabet the    *)
(* mapping gives identifiers that nothing else uses, reading the name one    *)
(* character at a time, and is the identity on its own results.              *)
EXTENDS Names, Json, TLC
CONSTANT MaxLen
Alphabet == {97, 66, 49, 95, 45, 39, 43, 46}         \* a B 1 _ - ' + .
NamesUpTo == UNION {[1..n -> Alphabet] : n \in 0..MaxLen}
VARIABLES s, k, cur, last, out
vars == <<s, k, cur, last, out>>
Init == s \in NamesUpTo /\ k = 1 /\ cur = <<>> /\ last = "" /\ out = <<>>
Flush(o, w) == IF w = <<>> THEN o ELSE Append(o, w)
(* The machine: it sees one character and the next, and holds back a capital *)
(* only by looking ahead.                                                    *)
C == s[k]
Ahead == IF k < Len(s) THEN s[k + 1] ELSE 45
NextChar ==
  /\ k <= Len(s) /\ k' = k + 1 /\ UNCHANGED s
  /\ IF ~IsAlnum(C) THEN out' = Flush(out, cur) /\ cur' = <<>> /\ last' = ""
     ELSE IF last = "up" /\ IsUp(C) /\ IsLow(Ahead)
          THEN out' = Flush(out, cur) /\ cur' = <<C>> /\ last' = ""
          ELSE LET m == IF IsLow(C) THEN "low" ELSE IF IsUp(C) THEN "up" ELSE last
               IN IF m = "low" /\ IsUp(Ahead)
                  THEN out' = Flush(out, Append(cur, C)) /\ cur' = <<>> /\ last' = ""
                  ELSE out' = out /\ cur' = Append(cur, C) /\ last' = m
Next == NextChar
Done == k > Len(s)
MachineAgrees == Done => Flush(out, cur) = Words(s)
NothingLost == Done => Concat(Words(s)) = SelectSeq(s, IsAlnum)
Contexts == BOOLEAN \X BOOLEAN
Valid == Done =>
  /\ IsIdent(OpIdent(s, TRUE)) /\ IsIdent(OpIdent(s, FALSE)) /\ IsIdent(BuilderIdent(s, FALSE)) /\ IsIdent(TraitIdent(s))
  /\ \A c \in Contexts : IsIdent(ParamIdent(s, c[1], c[2])) /\ ParamIdent(s, c[1], c[2]) \notin ParamTaken(c[1], c[2])
  /\ OpIdent(s, FALSE) \notin ClientNames
Stable == Done => /\ Ident(Ident(s, "snake"), "snake") = Ident(s, "snake")
                  /\ Ident(Ident(s, "pascal"), "snake") = Ident(Ident(Ident(s, "pascal"), "snake"), "snake")
(* Taken names are moved out of the way, and onto nothing that is taken. *)
ASSUME \A n \in ParamTaken(TRUE, TRUE) : ParamIdent(n, TRUE, TRUE) \notin ParamTaken(TRUE, TRUE) \cup Keywords
ASSUME \A n \in ClientNames \cup {InnerName} : OpIdent(n, TRUE) \notin ClientNames \cup {InnerName} \cup Keywords
ASSUME \A n \in BuilderNames : BuilderIdent(n, FALSE) \notin BuilderNames \cup Keywords
ASSUME \A w \in Keywords : IsIdent(ParamIdent(w, FALSE, FALSE)) /\ IsIdent(BuilderIdent(w, FALSE))
ASSUME JsonSerialize("scen.json", [names |-> SetToSeq(NamesUpTo), keywords |-> SetToSeq(Keywords),
         taken |-> SetToSeq(ParamTaken(TRUE, TRUE) \cup ClientNames \cup {InnerName}), builders |-> SetToSeq(BuilderNames)])
=============================================================================
