---------------------------- MODULE Trace_Rounds ----------------------------
(* Checks blocks with rounds of data requests, as the real node validates   *)
(* and consolidates them, against Rounds.  Who was drawn is taken from the  *)
(* recording; Eligibility.tla is about that.                                *)
EXTENDS Rounds, Json, IOUtils, TLC
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tid, l, got
tvars == <<rvars, tid, l, got>>
Init == /\ tid \in 1..Len(Traces) /\ l = 0 /\ RoundsInit(Traces[tid].cfg) /\ got = <<>>
Ev == Traces[tid].steps[l + 1]
IsEvent(e) == /\ l < Len(Traces[tid].steps) /\ Ev.op = e
              /\ l' = l + 1 /\ tid' = tid /\ got' = <<Ev.obs>>
(* Validation itself changes nothing. *)
Same(o) == o.pure /\ [k \in DOMAIN RoundObs |-> o[k]] = RoundObs
Match == got = <<>> \/ Same(got[1])
Next == \/ IsEvent("block") /\ Consolidate(Ev, Ev.obs.el) /\ Match'
        \/ l = Len(Traces[tid].steps) /\ UNCHANGED tvars
Spec == Init /\ [][Next]_tvars
Conforms == RoundsConserved /\ RoundsSane
=============================================================================
