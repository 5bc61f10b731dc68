-------------------------------- MODULE Query -------------------------------
(***************************************************************************)
(* Query parameters (C02): how a value of the serialization data model is  *)
(* sent under a parameter name.                                            *)
(*                                                                         *)
(* A value is [k, s, c]: s a text (scalar text, variant or struct name), c *)
(* a sequence of children, each [n |-> member name, v |-> value].          *)
(*   scalar uvar none unit ustruct some newtype nvariant seq map struct    *)
(*   tuple tstruct tvariant svariant                                       *)
(***************************************************************************)
EXTENDS Bytes, TLC

Ok(ps) == [r |-> "ok", pairs |-> ps]
Err == [r |-> "err", pairs |-> <<>>]
Free == [r |-> "free", pairs |-> <<>>]     \* the property does not say
Join(rs) == IF \E j \in 1..Len(rs) : rs[j].r = "err" THEN Err
            ELSE IF \E j \in 1..Len(rs) : rs[j].r = "free" THEN Free
            ELSE Ok(Concat([j \in 1..Len(rs) |-> rs[j].pairs]))

(* A value that has to fit one name=value pair. *)
RECURSIVE Elem(_, _), Expand(_, _)
Elem(n, v) ==
  CASE v.k \in {"scalar", "uvar"} -> Ok(<< <<n, v.s>> >>)
    [] v.k = "none" -> Ok(<<>>)
    [] v.k \in {"some", "newtype"} -> Elem(n, v.c[1].v)
    [] v.k \in {"unit", "ustruct"} -> Free
    [] OTHER -> Err
(* A whole parameter. *)
Expand(n, v) ==
  CASE v.k \in {"scalar", "uvar"} -> Ok(<< <<n, v.s>> >>)
    [] v.k \in {"none", "unit", "ustruct"} -> Ok(<<>>)
    [] v.k \in {"some", "newtype"} -> Expand(n, v.c[1].v)
    [] v.k = "nvariant" -> Elem(v.s, v.c[1].v)
    [] v.k = "seq" -> Join([j \in 1..Len(v.c) |-> Elem(n, v.c[j].v)])
    [] v.k \in {"map", "struct"} -> Join([j \in 1..Len(v.c) |-> Elem(v.c[j].n, v.c[j].v)])
    [] v.k = "tuple" -> Free
    [] OTHER -> Err

(* A form body (C03): only structured values have members to send.         *)
RECURSIVE Form(_)
Form(v) == CASE v.k \in {"map", "struct"} -> Expand(<<>>, v)
             [] v.k \in {"some", "newtype"} -> Form(v.c[1].v)
             [] v.k \in {"scalar", "uvar", "nvariant", "tstruct", "tvariant", "svariant"} -> Err
             [] OTHER -> Free

(* --- the inner form serializer ------------------------------------------- *)
RECURSIVE Part(_, _)
Part(n, v) ==        \* the value of one pair
  CASE v.k \in {"scalar", "uvar"} -> Ok(<< <<n, v.s>> >>)
    [] v.k = "none" -> Ok(<<>>)
    [] v.k \in {"some", "newtype"} -> Part(n, v.c[1].v)
    [] OTHER -> Err
Fields(cs) == Join([j \in 1..Len(cs) |-> Part(cs[j].n, cs[j].v)])
RECURSIVE Top(_)
Top(v) ==
  CASE v.k \in {"map", "struct"} -> Fields(v.c)
    [] v.k \in {"none", "unit", "ustruct"} -> Ok(<<>>)
    [] v.k \in {"some", "newtype"} -> Top(v.c[1].v)
    [] OTHER -> Err
(* A request under construction: parameters are added one after another;   *)
(* the first one without a form makes the request an error for good.       *)
AddTo(st, n, v) ==
  LET x == Expand(n, v)
  IN IF st.r = "err" \/ x.r = "err" THEN Err
     ELSE IF st.r = "free" \/ x.r = "free" THEN Free
     ELSE Ok(st.pairs \o x.pairs)
=============================================================================
