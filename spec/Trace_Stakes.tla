----------------------------- MODULE Trace_Stakes -----------------------------
(* Checks executions recorded from the real Stakes against the specification. *)
EXTENDS Stakes, Json, IOUtils, TLC
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tid, l, got
tvars == <<stakeVars, tid, l, got>>
Init == /\ tid \in 1..Len(Traces) /\ l = 0
        /\ StakesInit(Traces[tid].cfg.unit, Traces[tid].cfg.min) /\ got = <<>>
Ev == Traces[tid].steps[l + 1]
IsEvent(e) == /\ l < Len(Traces[tid].steps) /\ Ev.op = e
              /\ l' = l + 1 /\ tid' = tid /\ got' = <<Ev>>
K == <<Ev.v, Ev.w>>
TAdd     == IsEvent("add") /\ AddStake(K, Ev.c, Ev.at, Ev.nonce) /\ OthersKeep(K)
TStake   == IsEvent("stake") /\ Stake(K, Ev.c, Ev.at) /\ OthersKeep(K) /\ Conserve(Ev.c)
TRemove  == IsEvent("remove") /\ RemoveStake(K, Ev.c, Ev.at, Ev.nonce) /\ OthersKeep(K)
TReward  == IsEvent("reward") /\ AddReward(Ev.v, Ev.c, Ev.at)
TReserve == IsEvent("reserve") /\ Reserve(Ev.v, Ev.c)
TReset   == IsEvent("reset") /\ ResetAge(Ev.v, Ev.cap, Ev.at, Ev.f)
TMining  == IsEvent("mining") /\ ResetMining(Ev.v, Ev.at)
TReload  == IsEvent("reload") /\ Reload
TEnd     == l = Len(Traces[tid].steps) /\ UNCHANGED tvars
Next == (TAdd \/ TStake \/ TRemove \/ TReward \/ TReserve \/ TReset \/ TMining \/ TReload \/ TEnd)
Spec == Init /\ [][Next]_tvars
Set(s) == {s[i] : i \in 1..Len(s)}
Conforms ==
  got # <<>> =>
    LET ev == got[1]  o == ev.obs
        want == Obs(ev.q, ev.k)
    IN  /\ o.res = want.res
        /\ Len(o.entries) = want.count /\ Set(o.entries) = want.entries
        /\ o.m = want.m /\ o.x = want.x
        /\ {<<b[1], Set(b[2]), b[3], b[4]>> : b \in Set(o.byv)} = want.byv
        /\ {<<b[1], Set(b[2])>> : b \in Set(o.byw)} = want.byw
        /\ \A b \in Set(o.byv) \cup Set(o.byw) : Len(b[2]) = Cardinality(Set(b[2]))
        /\ o.total = want.total /\ o.count = want.count /\ o.validators = want.validators
        /\ o.step = want.step /\ o.take = want.take /\ o.evenly = want.evenly
        /\ o.same
=============================================================================
