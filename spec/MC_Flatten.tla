----------------------------- MODULE MC_Flatten -----------------------------
EXTENDS Flatten, Json, TLC
CONSTANTS MaxPending, Payloads
VARIABLE hist
R(r) == hist' = Append(hist, r @@ [exp |-> out'])
Init == \E n \in 0..MaxPending, k \in {"ok", "inner", "outer"}, p \in Payloads :
          FInit(n, k, p) /\ hist = <<[op |-> "cfg", pending |-> n, kind |-> k, payload |-> p]>>
Next == Poll /\ R([op |-> "poll"])
Spec == Init /\ [][Next]_<<fVars, hist>>
Emit == PrintT("@@" \o ToJson(hist'))
=============================================================================
