------------------------------ MODULE MC_Stakes ------------------------------
EXTENDS Stakes, Json, TLC
CONSTANTS Vals, Wdrs, Amounts, Units, Mins, MaxAt, MaxOps
VARIABLES hist, now
At(q) == Obs(q, 2)
H(r, q) == hist' = Append(hist, r @@ [q |-> q, k |-> 2, exp |-> At(q)'])
Init == \E u \in Units, m \in Mins : StakesInit(u, m) /\ now = 0 /\ hist = <<[op |-> "cfg", unit |-> u, min |-> m]>>
Keys == Vals \X Wdrs
Ops(t) ==
  \/ \E k \in Keys, c \in Amounts : Stake(k, c, t) /\ OthersKeep(k) /\ Conserve(c)
        /\ H([op |-> "stake", v |-> k[1], w |-> k[2], c |-> c, at |-> t], t + 1)
  \/ \E k \in Keys, c \in Amounts, n \in BOOLEAN : AddStake(k, c, t, n) /\ OthersKeep(k) /\ Conserve(c)
        /\ H([op |-> "add", v |-> k[1], w |-> k[2], c |-> c, at |-> t, nonce |-> n], t + 1)
  \/ \E k \in Keys, c \in Amounts, n \in BOOLEAN : RemoveStake(k, c, t, n) /\ OthersKeep(k) /\ Conserve(-c)
        /\ H([op |-> "remove", v |-> k[1], w |-> k[2], c |-> c, at |-> t, nonce |-> n], t + 2)
  \/ \E v \in Vals, c \in Amounts : Cardinality(Of(v)) < 2 /\ AddReward(v, c, t) /\ Conserve(c)
        /\ H([op |-> "reward", v |-> v, c |-> c, at |-> t], t + 1)
  \/ \E v \in Vals, c \in Amounts : Cardinality(Of(v)) < 2 /\ (Of(v) # {} => st[Only(v)].c # c) /\ Reserve(v, c) /\ Conserve(-c)
        /\ H([op |-> "reserve", v |-> v, c |-> c], t + 1)
  \/ \E v \in Vals, cap \in {"m", "x"}, f \in {1, 2} : CanReset(v, cap, t, f) /\ ResetAge(v, cap, t, f) /\ Conserve(0)
        /\ H([op |-> "reset", v |-> v, cap |-> cap, at |-> t, f |-> f], t + 2)
  \/ \E v \in Vals : ResetMining(v, t) /\ Conserve(0) /\ H([op |-> "mining", v |-> v, at |-> t], t + 3)
  \/ Reload /\ H([op |-> "reload"], t + 1)
Next == Len(hist) <= MaxOps /\ \E t \in {now, now + 2} : t <= MaxAt /\ now' = t /\ Ops(t)
Spec == Init /\ [][Next]_<<stakeVars, hist, now>>
View == <<st, unit, min, now>>
Emit == PrintT("@@" \o ToJson(hist'))
RefusedChangesNothing == [][Refused]_stakeVars
=============================================================================
