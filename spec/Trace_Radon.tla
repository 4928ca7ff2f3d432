---------------------------- MODULE Trace_Radon ----------------------------
EXTENDS Radon, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tid, l, got
tvars == <<tallyVars, tid, l, got>>
Init == tid \in 1..Len(Traces) /\ l = 0 /\ ScriptInit /\ got = <<>>
Ev == Traces[tid].steps[l + 1]
Next == \/ l < Len(Traces[tid].steps) /\ l' = l + 1 /\ tid' = tid /\ got' = <<Ev>> /\ Scripted(Ev)
        \/ l = Len(Traces[tid].steps) /\ UNCHANGED tvars
Spec == Init /\ [][Next]_tvars
Conforms == got # <<>> => LET o == got[1].obs IN "panic" \notin DOMAIN o /\ (~Murky(res) => o.again /\ o.v = res /\ o.back \in Back(res))
=============================================================================
