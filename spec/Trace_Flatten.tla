---------------------------- MODULE Trace_Flatten ----------------------------
EXTENDS Flatten, Json, IOUtils, TLC
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tid, l, got
tvars == <<fVars, tid, l, got>>
Init == tid \in 1..Len(Traces) /\ FInit(Traces[tid].cfg.pending, Traces[tid].cfg.kind, Traces[tid].cfg.payload) /\ l = 0 /\ got = out
More == l < Len(Traces[tid].steps)
Ev == Traces[tid].steps[l + 1]
Next == \/ More /\ Ev.op = "poll" /\ Poll /\ l' = l + 1 /\ tid' = tid /\ got' = Ev.obs
        \/ ~More /\ UNCHANGED tvars
Spec == Init /\ [][Next]_tvars
Conforms == got = out
=============================================================================
