------------------------------ MODULE Trace_Sig ------------------------------
EXTENDS Sig, Json, IOUtils, TLC
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tid, l, got, seen
tvars == <<sVars, tid, l, got, seen>>
Init == SInit /\ tid \in 1..Len(Traces) /\ l = 0 /\ got = [ok |-> TRUE, sig |-> ""] /\ seen = {}
More == l < Len(Traces[tid].steps)
Ev == Traces[tid].steps[l + 1]
Step == l' = l + 1 /\ tid' = tid /\ got' = Ev.obs /\ seen' = seen \cup {<<out'.sig, Ev.obs.sig>>}
Next == \/ More /\ Ev.op = "sign" /\ Sign(Ev.s, Ev.k, Ev.m) /\ Step
        \/ More /\ Ev.op = "verify" /\ Verify(Ev.s, Ev.k, Ev.m) /\ Step
        \/ More /\ Ev.op = "tamper" /\ Tamper(Ev.s, Ev.from, Ev.t) /\ Step
        \/ More /\ Ev.op = "recode" /\ Recode(Ev.s) /\ Step
        \/ ~More /\ UNCHANGED tvars
Spec == Init /\ [][Next]_tvars
Conforms == got.ok = out.ok /\ (l > 0 => got.right)
OneToOne == l > 0 => \A b \in seen : (out.sig = b[1]) <=> (got.sig = b[2])
=============================================================================
