---------------------------- MODULE Trace_Partial ----------------------------
EXTENDS Partial, Json, IOUtils, TLC
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tid, l, got, want
tvars == <<tid, l, got, want>>
Init == tid \in 1..Len(Traces) /\ l = 0 /\ got = [none |-> 0] /\ want = [none |-> 0]
More == l < Len(Traces[tid].steps)
Ev == Traces[tid].steps[l + 1]
Sh == Traces[tid].cfg
Next == \/ /\ More
           /\ l' = l + 1 /\ tid' = tid /\ got' = Ev.obs
           /\ want' = CASE Ev.op = "types" -> [types |-> TypesOf(Sh)]
                        [] Ev.op = "default" -> Defaults(Sh)
                        [] Ev.op = "load" -> LoadAll(Sh, Ev.doc, Ev.extra)
        \/ ~More /\ UNCHANGED tvars
Spec == Init /\ [][Next]_tvars
Conforms == got = want
=============================================================================
