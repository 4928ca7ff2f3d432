------------------------------- MODULE MC_Trs -------------------------------
(* Exhaustive small model of the reputation ledger.  Every transition of    *)
(* the state graph is printed as a script (path + expected observations),   *)
(* which the harness replays on the real TotalReputationSet.                *)
EXTENDS Trs, Json
CONSTANTS Id, Alpha, Amount, MaxOps
VARIABLE hist
Diffs == {<<>>} \cup {<<[id |-> i, v |-> v]>> : i \in Id, v \in Amount}
         \cup {<<[id |-> i, v |-> v], [id |-> j, v |-> w]>> : i \in Id, j \in Id, v \in Amount, w \in Amount}
Pens1 == {[id |-> i, kind |-> "frac", n |-> 1, d |-> 2] : i \in Id}
     \cup {[id |-> i, kind |-> "sub", n |-> 1, d |-> 1] : i \in Id}
     \cup {[id |-> i, kind |-> "min", n |-> 0, d |-> 1] : i \in Id}
     \cup {[id |-> i, kind |-> "grow", n |-> 1, d |-> 1] : i \in Id}
Pens == {<<p>> : p \in Pens1} \cup {<<p, q>> : p \in Pens1, q \in Pens1}
H(r) == hist' = Append(hist, r @@ [exp |-> Obs'])
Init == TrsInit /\ hist = <<>>
DoGain     == \E e \in Alpha, d \in Diffs : Gain(e, d) /\ H([op |-> "gain", e |-> e, d |-> d])
DoExpire   == \E a \in Alpha : Expire(a) /\ H([op |-> "expire", a |-> a])
DoPenalize == \E p \in Pens : Penalize(p) /\ H([op |-> "penalize", p |-> p])
DoReload   == Reload /\ H([op |-> "reload"])
DoRebuild  == Reload /\ H([op |-> "rebuild"])
DoBackwards == Backwards /\ H([op |-> "backwards"])
DoClear    == Clear /\ H([op |-> "clear"])
Next == Len(hist) < MaxOps /\ (DoGain \/ DoExpire \/ DoPenalize \/ DoReload \/ DoRebuild \/ DoBackwards \/ DoClear)
Spec == Init /\ [][Next]_<<trsVars, hist>>
View == <<queue>>
Emit == PrintT("@@" \o ToJson(hist'))
Conservation ==
  [][ /\ \A a \in Alpha : Expire(a) => ExpireExact(a)
      /\ \A p \in Pens : Penalize(p) => PenalizeExact ]_<<queue>>
Bound == Total(queue) <= 6 /\ Len(queue) <= 3
=============================================================================
