-------------------------------- MODULE Carry ---------------------------------
(***************************************************************************)
(* Which operations a client can carry (C23): a document whose operations   *)
(* ask for something the generated client could not send as documented is    *)
(* refused, never served without it.                                         *)
(* doc = Seq of operations [params : Seq([name, level, is]),                 *)
(*                          body : [media, schema, via], resp]              *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets

(* A parameter is described by its place, its style and what gives its form. *)
P(loc, style, form) == [loc |-> loc, style |-> style, form |-> form]
Carried == {P("path", "simple", "schema"), P("query", "form", "schema"), P("header", "simple", "schema")}
Beyond == {P("path", s, "schema") : s \in {"matrix", "label"}}
          \cup {P("query", s, "schema") : s \in {"spaceDelimited", "pipeDelimited", "deepObject"}}
          \cup {P(l[1], l[2], "content") : l \in {<<"path", "simple">>, <<"query", "form">>, <<"header", "simple">>, <<"cookie", "form">>}}
          \cup {P("cookie", "form", "schema")}
Dangling == P("", "", "dangling")
(* An operation's own parameters replace its path's of the same name; a       *)
(* reference has to lead somewhere even if what it leads to is replaced.      *)
InForce(o) == {p \in {o.params[k] : k \in 1..Len(o.params)} :
                p.level = "op" \/ p.is = Dangling \/ ~\E k \in 1..Len(o.params) : o.params[k].level = "op" /\ o.params[k].name = p.name}
ParamsFit(o) == \A p \in InForce(o) : p.is \in Carried

(* Raw bodies are bytes or text with nothing more demanded of them; other     *)
(* bodies are encoded from whatever their schema describes.                   *)
Raw == {"octets", "text"}
Encoded == {"json", "form"}
Alien == {"xml", "multipart", "image", "any", "html", "csv", "vendor", "nothing"}
Whole == [octets |-> "binary", text |-> "string"]
More == {"format", "pattern", "enum", "minLength", "maxLength", "nullable", "default", "integer", "object", "allOf", "array"}
BodyFit(b) ==
  CASE b.media \in {"none", "empty"} -> TRUE               \* no body, or one nothing is said about
    [] b.media = "dangling"    -> FALSE
    [] b.media = "several"     -> FALSE
    [] b.media \in Alien       -> FALSE
    [] b.media \in Raw         -> b.schema = Whole[b.media]
    [] b.media \in Encoded     -> b.schema \notin {"none", "encoding"}
RespFit(r) == r # "dangling"
Fits(o) == ParamsFit(o) /\ BodyFit(o.body) /\ RespFit(o.resp)
Served(d) == \A k \in 1..Len(d) : Fits(d[k])

(* What a generator has to do: operation by operation, part by part. *)
VARIABLES d, op, part, seen, verdict
cvars == <<d, op, part, seen, verdict>>
CInit(docs) == d \in docs /\ op = 1 /\ part = 1 /\ seen = {} /\ verdict = "reading"
Reading == verdict = "reading"
O == d[op]
Order(o) == SelectSeq(o.params, LAMBDA p : p.level = "op") \o SelectSeq(o.params, LAMBDA p : p.level = "path")
Refuse == verdict' = "refused" /\ UNCHANGED <<d, op, part, seen>>
Parameter == /\ Reading /\ op <= Len(d) /\ part <= Len(O.params)
             /\ LET p == Order(O)[part]
                    replaced == p.level = "path" /\ p.name \in seen
                IN IF p.is = Dangling \/ (~replaced /\ p.is \notin Carried) THEN Refuse
                   ELSE /\ part' = part + 1 /\ seen' = seen \cup (IF p.level = "op" THEN {p.name} ELSE {})
                        /\ UNCHANGED <<d, op, verdict>>
Rest == /\ Reading /\ op <= Len(d) /\ part > Len(O.params)
        /\ IF BodyFit(O.body) /\ RespFit(O.resp) THEN op' = op + 1 /\ part' = 1 /\ seen' = {} /\ UNCHANGED <<d, verdict>>
           ELSE Refuse
Finish == Reading /\ op > Len(d) /\ verdict' = "served" /\ UNCHANGED <<d, op, part, seen>>
CNext == Parameter \/ Rest \/ Finish
ScanIsProperty == ~Reading => (verdict = "served") = Served(d)
(* refusing depends on no other operation *)
Local == verdict = "refused" => ~Fits(d[op])
=============================================================================
