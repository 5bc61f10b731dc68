------------------------------- MODULE Names ----------------------------------
(***************************************************************************)
(* From names in the API document to Rust identifiers (C15), for names of  *)
(* ASCII characters.  The mapping splits a name into words, joins them in  *)
(* the case asked for, and mends what is not an identifier.                *)
(***************************************************************************)
EXTENDS Bytes

IsUp(c) == c \in 65..90
IsLow(c) == c \in 97..122
IsDig(c) == c \in 48..57
IsAlnum(c) == IsUp(c) \/ IsLow(c) \/ IsDig(c)
UpperC(c) == IF IsLow(c) THEN c - 32 ELSE c

(* abstract as async await become box break const continue crate do dyn else enum extern false final fn for if impl in let loop macro match mod move mut override priv pub ref return Self self static struct super trait true try type typeof unsafe unsized use virtual where while yield _ *)
Keywords == { <<97,98,115,116,114,97,99,116>>, <<97,115>>, <<97,115,121,110,99>>, <<97,119,97,105,116>>, 
    <<98,101,99,111,109,101>>, <<98,111,120>>, <<98,114,101,97,107>>, <<99,111,110,115,116>>, 
    <<99,111,110,116,105,110,117,101>>, <<99,114,97,116,101>>, <<100,111>>, <<100,121,110>>, <<101,108,115,101>>, 
    <<101,110,117,109>>, <<101,120,116,101,114,110>>, <<102,97,108,115,101>>, <<102,105,110,97,108>>, 
    <<102,110>>, <<102,111,114>>, <<105,102>>, <<105,109,112,108>>, <<105,110>>, <<108,101,116>>, 
    <<108,111,111,112>>, <<109,97,99,114,111>>, <<109,97,116,99,104>>, <<109,111,100>>, <<109,111,118,101>>, 
    <<109,117,116>>, <<111,118,101,114,114,105,100,101>>, <<112,114,105,118>>, <<112,117,98>>, <<114,101,102>>, 
    <<114,101,116,117,114,110>>, <<83,101,108,102>>, <<115,101,108,102>>, <<115,116,97,116,105,99>>, 
    <<115,116,114,117,99,116>>, <<115,117,112,101,114>>, <<116,114,97,105,116>>, <<116,114,117,101>>, 
    <<116,114,121>>, <<116,121,112,101>>, <<116,121,112,101,111,102>>, <<117,110,115,97,102,101>>, 
    <<117,110,115,105,122,101,100>>, <<117,115,101>>, <<118,105,114,116,117,97,108>>, <<119,104,101,114,101>>, 
    <<119,104,105,108,101>>, <<121,105,101,108,100>>, <<95>> }

(* --- words ------------------------------------------------------------------ *)
(* A word ends where a capital follows a lower-case letter (digits do not      *)
(* count), and before the last of several capitals if a lower-case letter      *)
(* follows it: "fooBar" is foo|Bar, "HTTPBody" is HTTP|Body, "a1B" is a1|B.     *)
(* `last` is the case of the last letter of the word so far ("" if none).      *)
ChunkWords(w) ==
  LET n == Len(w)
      caseOf(c, last) == IF IsLow(c) THEN "low" ELSE IF IsUp(c) THEN "up" ELSE last
      step(a, k) ==
        LET c == w[k]  m == caseOf(c, a.last)
        IN IF k = n THEN [a EXCEPT !.out = Append(@, SubSeq(w, a.from, n))]
           ELSE IF m = "low" /\ IsUp(w[k + 1])
           THEN [out |-> Append(a.out, SubSeq(w, a.from, k)), from |-> k + 1, last |-> ""]
           ELSE IF a.last = "up" /\ IsUp(c) /\ IsLow(w[k + 1])
           THEN [out |-> Append(a.out, SubSeq(w, a.from, k - 1)), from |-> k, last |-> ""]
           ELSE [a EXCEPT !.last = m]
  IN FoldLeft(step, [out |-> <<>>, from |-> 1, last |-> ""], [k \in 1..n |-> k]).out
Chunks(s) == SelectSeq(Split([k \in 1..Len(s) |-> IF IsAlnum(s[k]) THEN s[k] ELSE 45], 45), LAMBDA x : x # <<>>)
Words(s) == Concat([k \in 1..Len(Chunks(s)) |-> ChunkWords(Chunks(s)[k])])

Snake(s) == LET ws == Words(s)
            IN Concat([k \in 1..Len(ws) |-> (IF k > 1 THEN <<95>> ELSE <<>>) \o LowerSeq(ws[k])])
Capital(w) == <<UpperC(w[1])>> \o LowerSeq(Tail(w))
Pascal(s) == LET ws == Words(s) IN Concat([k \in 1..Len(ws) |-> Capital(ws[k])])

(* --- identifiers -------------------------------------------------------------- *)
PLUS1 == <<43,49>>  MINUS1 == <<45,49>>
Cased(s, case) == IF case = "snake" THEN Snake(s) ELSE Pascal(s)
Ident(s, case) ==
  LET stripped == SelectSeq(s, LAMBDA c : c # 39)            \* it's -> its
      base == CASE s = PLUS1 -> <<112,108,117,115,49>>       \* +1 -> plus1
                [] s = MINUS1 -> <<109,105,110,117,115,49>>  \* -1 -> minus1
                [] OTHER -> Cased(stripped, case)
      startable == IF base = <<>> THEN Cased(<<120>>, case)
                   ELSE IF IsDig(base[1]) THEN <<95>> \o base ELSE base
  IN IF startable \in Keywords THEN Append(startable, 95) ELSE startable
IsIdent(s) == /\ s # <<>> /\ ~IsDig(s[1]) /\ \A k \in 1..Len(s) : IsAlnum(s[k]) \/ s[k] = 95
              /\ s \notin Keywords

(* --- names the generated code uses itself -------------------------------------- *)
(* of a client: new new_with_client baseurl client api_version *)
ClientNames == { <<110,101,119>>, <<110,101,119,95,119,105,116,104,95,99,108,105,101,110,116>>, <<98,97,115,101,117,114,108>>, 
    <<99,108,105,101,110,116>>, <<97,112,105,95,118,101,114,115,105,111,110>> }
(* within a client that holds an inner value: inner *)
InnerName == <<105,110,110,101,114>>
(* among builders: ByteStream Error From Option RequestBuilderExt ResponseValue Result String Unpin *)
BuilderNames == { <<66,121,116,101,83,116,114,101,97,109>>, <<69,114,114,111,114>>, <<70,114,111,109>>, 
    <<79,112,116,105,111,110>>, <<82,101,113,117,101,115,116,66,117,105,108,100,101,114,69,120,116>>, 
    <<82,101,115,112,111,110,115,101,86,97,108,117,101>>, <<82,101,115,117,108,116>>, <<83,116,114,105,110,103>>, 
    <<85,110,112,105,110>> }
(* of a function or builder: new send encode_path *)
ParamNames == { <<110,101,119>>, <<115,101,110,100>>, <<101,110,99,111,100,101,95,112,97,116,104>> }
(* where there is a body: body, body_map; where there are pages: clone, stream *)
BodyNames == { <<98,111,100,121>>, <<98,111,100,121,95,109,97,112>> }
PageNames == { <<99,108,111,110,101>>, <<115,116,114,101,97,109>> }

Clear(id, taken) == IF id \in taken THEN Append(id, 95) ELSE id
OpIdent(name, inner) == Clear(Ident(name, "snake"), ClientNames \cup (IF inner THEN {InnerName} ELSE {}))
BuilderIdent(name, inner) == Clear(Ident(OpIdent(name, inner), "pascal"), BuilderNames)
ParamTaken(body, paged) == ParamNames \cup (IF body THEN BodyNames ELSE {}) \cup (IF paged THEN PageNames ELSE {})
ParamIdent(name, body, paged) == Clear(Ident(name, "snake"), ParamTaken(body, paged))
(* Client<Tag>Ext *)
TraitIdent(tag) == <<67,108,105,101,110,116>> \o Ident(tag, "pascal") \o <<69,120,116>>
=============================================================================
