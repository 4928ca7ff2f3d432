--------------------------- MODULE Trace_Mnemonic ---------------------------
EXTENDS Mnemonic, Json, IOUtils, TLC
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tid, l, got, seen
tvars == <<mnVars, tid, l, got, seen>>
Init == MnInit /\ tid \in 1..Len(Traces) /\ l = 0 /\ got = [ok |-> TRUE, n |-> 0, seed |-> "", phrase |-> "", want |-> ""] /\ seen = {}
More == l < Len(Traces[tid].steps)
Ev == Traces[tid].steps[l + 1]
Step == /\ l' = l + 1 /\ tid' = tid /\ got' = Ev.obs
        /\ seen' = IF Ev.obs.ok THEN seen \cup {<<out'.term, Ev.obs.seed>>} ELSE seen
Next == \/ More /\ Ev.op = "seed" /\ Seed(Ev.phrase, Ev.n, Ev.known, Ev.sum, Ev.pass) /\ Step
        \/ More /\ Ev.op = "generate" /\ Generate(Ev.n, Ev.obs.phrase, Ev.pieces) /\ Step
        \/ ~More /\ UNCHANGED tvars
Spec == Init /\ [][Next]_tvars
\* `want' is what the independent implementation says the seed of this phrase is
Conforms == got.ok = out.ok /\ got.n = out.n /\ (l > 0 /\ out.ok => got.phrase = out.term[1] /\ got.seed = got.want)
OneToOne == l > 0 /\ out.ok => \A b \in seen : (out.term = b[1]) <=> (got.seed = b[2])
=============================================================================
