---------------------------- MODULE Trace_KvBig ----------------------------
EXTENDS KvBig, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tid, l, got
tvars == <<bigVars, tid, l, got>>
Init == BigInit /\ tid \in 1..Len(Traces) /\ l = 0 /\ got = <<>>
Ev == Traces[tid].steps[l + 1]
IsEvent(e) == l < Len(Traces[tid].steps) /\ Ev.op = e /\ l' = l + 1 /\ tid' = tid /\ got' = <<Ev.obs>>
Next == \/ IsEvent("fill") /\ Fill(Ev.lo, Ev.hi, Ev.step, Ev.v)
        \/ IsEvent("get") /\ Get(Ev.i)
        \/ IsEvent("scan") /\ Scan(Ev.d, Ev.i)
        \/ l = Len(Traces[tid].steps) /\ UNCHANGED tvars
Spec == Init /\ [][Next]_tvars
Conforms == got # <<>> => got[1] = res
=============================================================================
