-------------------------- MODULE Trace_Eligibility --------------------------
(* Checks executions recorded from the real code against Eligibility. *)
EXTENDS Eligibility, Json, IOUtils, TLC
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tid, l, got
tvars == <<stakeVars, tid, l, got>>
Init == /\ tid \in 1..Len(Traces) /\ l = 0
        /\ StakesInit(Traces[tid].cfg.unit, Traces[tid].cfg.min) /\ got = <<>>
Ev == Traces[tid].steps[l + 1]
IsEvent(e) == /\ l < Len(Traces[tid].steps) /\ Ev.op = e
              /\ l' = l + 1 /\ tid' = tid /\ got' = <<Ev>>
K == <<Ev.v, Ev.w>>
Next == \/ IsEvent("stake") /\ Stake(K, Ev.c, Ev.at)
        \/ IsEvent("add") /\ AddStake(K, Ev.c, Ev.at, TRUE)
        \/ IsEvent("remove") /\ RemoveStake(K, Ev.c, Ev.at, TRUE)
        \/ IsEvent("reset") /\ ResetAge(Ev.v, Ev.cap, Ev.at, 1)
        \/ IsEvent("mining") /\ ResetMining(Ev.v, Ev.at)
        \/ IsEvent("ask") /\ UNCHANGED stakeVars
        \/ l = Len(Traces[tid].steps) /\ UNCHANGED tvars
Spec == Init /\ [][Next]_tvars
Near(a, b) == a <= b + 1 /\ b <= a + 1
Conforms ==
  got # <<>> =>
    LET ev == got[1]  o == ev.obs
    IN  IF ev.op # "ask" THEN o.res = res
        ELSE /\ o.same /\ Len(o.answers) = Len(ev.qs) /\ Len(o.approx) = Len(ev.qs)
             /\ \A i \in 1..Len(ev.qs) : /\ o.answers[i] = Answer(ev.qs[i], ev.q)
                                         /\ Near(o.approx[i], ChanceOf(ev.qs[i], ev.q))
=============================================================================
