------------------------------- MODULE MC_Docs --------------------------------
EXTENDS Docs
CONSTANT Two
Os == {<<[id |-> "a", params |-> <<>>]>>, <<[id |-> "a", params |-> <<"p">>]>>}
      \cup (IF Two THEN {<<[id |-> "a", params |-> <<>>], [id |-> "b", params |-> <<>>]>>} ELSE {})
Ts == {<<>>, <<34>>, <<46, 46>>, <<120, 44>>}                 \* nothing, a quote, full stops, "x,"
MInit == DInit(Os, Ts)
=============================================================================
