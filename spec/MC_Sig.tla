------------------------------- MODULE MC_Sig -------------------------------
EXTENDS Sig, Json, TLC
CONSTANTS Keys, Msgs, Tampers, MaxOps
VARIABLE hist
R(r) == hist' = Append(hist, r @@ [exp |-> out'])
Init == SInit /\ hist = <<>>
Next ==
  /\ Len(hist) < MaxOps
  /\ \/ \E s \in {"a", "b"}, k \in Keys, m \in Msgs : Sign(s, k, m) /\ R([op |-> "sign", s |-> s, k |-> k, m |-> m])
     \/ \E s \in DOMAIN sigs, k \in Keys, m \in Msgs : Verify(s, k, m) /\ R([op |-> "verify", s |-> s, k |-> k, m |-> m])
     \/ \E s \in DOMAIN sigs, t \in Tampers : sigs[s].t = 0 /\ Tamper("b", s, t) /\ R([op |-> "tamper", s |-> "b", from |-> s, t |-> t])
     \/ \E s \in DOMAIN sigs : Recode(s) /\ R([op |-> "recode", s |-> s])
Spec == Init /\ [][Next]_<<sVars, hist>>
View == sigs
Emit == PrintT("@@" \o ToJson(hist'))
\* nobody can produce a signature of somebody else: slots only ever hold what was signed
Unforgeable == \A s \in DOMAIN sigs : \E i \in 1..Len(hist) : hist[i].op = "sign" /\ hist[i].k = sigs[s].k /\ hist[i].m = sigs[s].m
=============================================================================
