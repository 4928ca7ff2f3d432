------------------------------ MODULE Trace_Trs ------------------------------
(* Checks executions recorded from the real TotalReputationSet against Trs. *)
EXTENDS Trs, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tid, l, got
tvars == <<trsVars, tid, l, got>>
Init == TrsInit /\ tid \in 1..Len(Traces) /\ l = 0 /\ got = Obs
Ev == Traces[tid].steps[l + 1]
IsEvent(e) == /\ l < Len(Traces[tid].steps) /\ Ev.op = e
              /\ l' = l + 1 /\ tid' = tid /\ got' = Ev.obs
TGain     == IsEvent("gain") /\ Gain(Ev.e, Ev.d)
TExpire   == IsEvent("expire") /\ Expire(Ev.a) /\ ExpireExact(Ev.a)
TPenalize == IsEvent("penalize") /\ Penalize(Ev.p) /\ PenalizeExact
TBackwards == IsEvent("backwards") /\ Backwards
TReload   == (IsEvent("reload") \/ IsEvent("rebuild")) /\ Reload
TClear    == IsEvent("clear") /\ Clear
TEnd      == l = Len(Traces[tid].steps) /\ UNCHANGED tvars
Next == TBackwards \/ TGain \/ TExpire \/ TPenalize \/ TReload \/ TClear \/ TEnd
Spec == Init /\ [][Next]_tvars
Conforms == got = Obs
=============================================================================
