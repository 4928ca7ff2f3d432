------------------------------- MODULE MC_Utxo -------------------------------
EXTENDS Utxo, Json, TLC
CONSTANTS Ids, Owners, Values, MaxBlk, MaxOps
VARIABLE hist
O == Obs(Owners)
H(r) == hist' = Append(hist, r @@ [exp |-> O'])
Init == UtxoInit /\ hist = <<[op |-> "cfg", owners |-> Cardinality(Owners)]>>
Next == Len(hist) <= MaxOps /\
  \/ mark < MaxBlk /\ Begin(mark + 3) /\ H([op |-> "begin", n |-> mark + 3])
  \/ \E k \in Ids, o \in Owners, v \in Values : Create(k, o, v, 0) /\ H([op |-> "create", id |-> k, o |-> o, v |-> v, n |-> 0])
  \/ \E k \in Ids : Spend(k) /\ H([op |-> "spend", id |-> k])
  \/ Discard /\ H([op |-> "discard"])
  \/ Consolidate /\ H([op |-> "consolidate"])
  \/ Snapshot /\ H([op |-> "snapshot"])
  \/ Persist /\ H([op |-> "persist"])
  \/ PersistAll /\ H([op |-> "persistall"])
  \/ Restart /\ H([op |-> "restart"])
  \/ blk = <<>> /\ Restart /\ H([op |-> "fail"])
  \/ Wipe /\ H([op |-> "wipe"])
  \/ \E k \in Ids, o \in Owners : Migrate([j \in {k} |-> [o |-> o, v |-> 7, n |-> 1]]) /\ H([op |-> "migrate", items |-> <<<<k, o, 7, 1>>>>])
Spec == Init /\ [][Next]_<<utxoVars, hist>>
View == <<conf, live, snap, blk, used, usedC, mark, markC>>
Emit == PrintT("@@" \o ToJson(hist'))
=============================================================================
