------------------------------- MODULE MC_Kv -------------------------------
EXTENDS Kv, Json, TLC
CONSTANTS Keys, Values, Prefixes, MaxOps
VARIABLE hist
Items == {[put |-> TRUE, k |-> k, v |-> v] : k \in Keys, v \in Values} \cup {[put |-> FALSE, k |-> k, v |-> "k"] : k \in Keys}
Batches == {<<>>} \cup {<<a>> : a \in Items} \cup {<<a, b>> : a \in Items, b \in Items}
Faults == IF backend = "rocks" THEN {FALSE, TRUE} ELSE {FALSE}
R(r) == hist' = Append(hist, r @@ [exp |-> out'])
Init == \E b \in {"map", "rocks", "none"} : KvInit(b) /\ hist = <<[op |-> "cfg", backend |-> b]>>
Next == /\ Len(hist) <= MaxOps
        /\ \/ \E k \in Keys, f \in Faults : Get(k, f) /\ R([op |-> "get", k |-> k, f |-> f])
           \/ \E k \in Keys, v \in Values, f \in Faults : Put(k, v, f) /\ R([op |-> "put", k |-> k, v |-> v, f |-> f])
           \/ \E k \in Keys, f \in Faults : Delete(k, f) /\ R([op |-> "delete", k |-> k, f |-> f])
           \/ \E b \in Batches, f \in Faults : (b # <<>> \/ ~f) /\ Write(b, f) /\ R([op |-> "write", b |-> b, f |-> f])
           \/ \E p \in Prefixes : Scan(p) /\ R([op |-> "scan", p |-> p])
Spec == Init /\ [][Next]_<<kvVars, hist>>
View == <<backend, db>>
Emit == PrintT("@@" \o ToJson(hist'))
=============================================================================
