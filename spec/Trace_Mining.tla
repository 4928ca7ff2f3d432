---------------------------- MODULE Trace_Mining ----------------------------
(* Checks what a node takes in its pool and proposes against Mining. *)
EXTENDS Mining, Json, IOUtils, TLC
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tid, l, got
tvars == <<rvars, tid, l, got>>
Init == /\ tid \in 1..Len(Traces) /\ l = 0 /\ RoundsInit(Traces[tid].cfg) /\ got = <<>>
Ev == Traces[tid].steps[l + 1]
IsEvent(e) == /\ l < Len(Traces[tid].steps) /\ Ev.op = e
              /\ l' = l + 1 /\ tid' = tid /\ got' = <<Ev.obs>>
Same(o) == o.pure /\ [k \in DOMAIN RoundObs |-> o[k]] = RoundObs
Match == got = <<>> \/ Same(got[1])
Next == \/ IsEvent("block") /\ Consolidate(Ev, Ev.obs.el) /\ Match'
        \/ IsEvent("add") /\ Add(Ev.ep, Ev.kind, Ev.tx, Ev.obs.el) /\ Match'
        \/ IsEvent("mine") /\ Propose(Ev.ep, Ev.miner, Ev.take, Ev.obs.blk, Ev.obs.pool) /\ Match'
        \/ l = Len(Traces[tid].steps) /\ UNCHANGED tvars
Spec == Init /\ [][Next]_tvars
Conforms == RoundsConserved /\ RoundsSane
=============================================================================
