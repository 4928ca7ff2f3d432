------------------------------- MODULE MC_Ars -------------------------------
EXTENDS Ars, Json, TLC, SequencesExt
CONSTANTS Id, Caps, Epochs, MaxOps
VARIABLE hist
Lists == {SetToSeq(S) : S \in SUBSET Id} \cup {<<i, i>> : i \in Id}
ObsJ == [ok |-> ok, active |-> [i \in Active |-> TRUE], n |-> Cardinality(Active)]
H(r) == hist' = Append(hist, r @@ [exp |-> ObsJ'])
Init == \E c \in Caps : ArsInit(c) /\ hist = <<[op |-> "cfg", cap |-> c]>>
DoPush   == \E s \in Lists : Push(s) /\ H([op |-> "push", ids |-> s])
DoUpdate == \E s \in Lists, e \in Epochs : Update(s, e) /\ H([op |-> "update", ids |-> s, e |-> e])
DoClear  == Clear /\ H([op |-> "clear"])
DoReload == Reload /\ H([op |-> "reload"])
Next == Len(hist) <= MaxOps /\ (DoPush \/ DoUpdate \/ DoClear \/ DoReload)
Spec == Init /\ [][Next]_<<arsVars, hist>>
View == <<cap, rows, last>>
Emit == PrintT("@@" \o ToJson(hist'))
=============================================================================
