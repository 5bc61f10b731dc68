---------------------------- MODULE MC_RespValue ----------------------------
EXTENDS RespValue, Json, TLC
CONSTANT MaxOps
VARIABLE hist
Rv0 == [inner |-> <<118>>, status |-> 200, headers |-> << <<CLEN, <<49, 55>> >> >>]
Init == rv = Rv0 /\ hist = <<>>
Next == \E op \in Writers \cup Readers :
          Len(hist) < MaxOps /\ Do(op) /\ hist' = Append(hist, op)
Untouched == rv.status = Rv0.status /\ rv.headers = Rv0.headers
             /\ ((\A k \in 1..Len(hist) : hist[k] \in Readers) => rv = Rv0)
OnlyWritersWrite == [][rv' # rv => hist'[Len(hist')] \in Writers]_<<rv, hist>>
ASSUME JsonSerialize("scen.json", SetToSeq([1..MaxOps -> Writers \cup Readers]))
=============================================================================
