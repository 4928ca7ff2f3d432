--------------------------- MODULE MC_Eligibility ---------------------------
EXTENDS Eligibility, Json, TLC
CONSTANTS Keys, Amounts, Rounds, Times, MaxOps
KeysQ == {<<1, 1>>, <<2, 1>>, <<3, 1>>, <<3, 2>>}
VARIABLES hist, now
Vals == {k[1] : k \in Keys}
MaxRounds == CHOOSE n \in Rounds : \A m \in Rounds : m <= n
Qs == {[q |-> "mine", v |-> v, rf |-> n] : v \in Vals, n \in 1..3}
      \cup {[q |-> "wit", v |-> v, w |-> n, round |-> r, rounds |-> m] : v \in Vals, n \in 1..3, r \in 0..1, m \in Rounds \ {0}}
AllQs == SetToSeq(Qs)
H(r) == hist' = Append(hist, r @@ [exp |-> [res |-> res']])
Answers(at) == [i \in 1..Len(AllQs) |-> Answer(AllQs[i], at)]
Init == StakesInit(2, 2) /\ now = 0 /\ hist = <<[op |-> "cfg", unit |-> 2, min |-> 2]>>
Ops(t) ==
  \/ \E k \in Keys, c \in Amounts : AddStake(k, c, t, TRUE) /\ H([op |-> "add", v |-> k[1], w |-> k[2], c |-> c, at |-> t])
  \/ \E k \in Keys, c \in Amounts : RemoveStake(k, c, t, TRUE) /\ H([op |-> "remove", v |-> k[1], w |-> k[2], c |-> c, at |-> t])
  \/ \E v \in Vals, cap \in {"m", "x"} : ResetAge(v, cap, t, 1) /\ H([op |-> "reset", v |-> v, cap |-> cap, at |-> t])
  \/ \E v \in Vals : ResetMining(v, t) /\ H([op |-> "mining", v |-> v, at |-> t])
Next == \/ Len(hist) <= MaxOps /\ \E t \in Times : t >= now /\ now' = t /\ Ops(t)
        \/ \E t \in {now + 1, now + 5} : /\ hist' = Append(hist, [op |-> "ask", q |-> t, qs |-> AllQs, exp |-> [answers |-> Answers(t)]])
                                        /\ UNCHANGED <<stakeVars, now>>
Spec == Init /\ [][Next]_<<stakeVars, hist, now>>
View == <<st, now>>
Inv == \A at \in {now, now + 1, now + 5} : EligibilityInv(at, 4, MaxRounds)
Emit == hist'[Len(hist')].op = "ask" => PrintT("@@" \o ToJson(hist'))
=============================================================================
