---------------------------- MODULE Trace_Tally ----------------------------
EXTENDS Tally, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tid, l, got
tvars == <<tallyVars, tid, l, got>>
Init == tid \in 1..Len(Traces) /\ l = 0 /\ TallyInit /\ got = <<>>
Ev == Traces[tid].steps[l + 1]
Next == \/ l < Len(Traces[tid].steps) /\ l' = l + 1 /\ tid' = tid /\ got' = <<Ev>> /\ Tallied(Ev)
        \/ l = Len(Traces[tid].steps) /\ UNCHANGED tvars
Spec == Init /\ [][Next]_tvars
Conforms == got # <<>> => LET o == got[1].obs IN "panic" \notin DOMAIN o /\
  (res.sharp => o.again /\ o.v = res.v /\ o.liars = res.liars /\ o.errors = res.errors)
=============================================================================
