--------------------------- MODULE Trace_Protected ---------------------------
EXTENDS Protected, Json, IOUtils, TLC
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tid, l, got
tvars == <<pVars, tid, l, got>>
Init == PInit /\ tid \in 1..Len(Traces) /\ l = 0 /\ got = out
More == l < Len(Traces[tid].steps)
Ev == Traces[tid].steps[l + 1]
Step == l' = l + 1 /\ tid' = tid /\ got' = Ev.obs
Next == \/ More /\ Ev.op = "new" /\ New(Ev.r, Ev.kind, Ev.how, Ev.v) /\ Step
        \/ More /\ Ev.op = "clone" /\ Clone(Ev.r, Ev.from) /\ Step
        \/ More /\ Ev.op = "tobytes" /\ ToBytes(Ev.r) /\ Step
        \/ More /\ Ev.op = "reload" /\ Reload(Ev.r) /\ Step
        \/ More /\ Ev.op = "overwrite" /\ Wipe(Ev.r, Ev.v) /\ Step
        \/ More /\ Ev.op = "drop" /\ Drop(Ev.r) /\ Step
        \/ More /\ Ev.op = "cmp" /\ Compare(Ev.r, Ev.q) /\ Step
        \/ ~More /\ UNCHANGED tvars
Spec == Init /\ [][Next]_tvars
Conforms == got = out
=============================================================================
