------------------------------ MODULE Trace_Ars ------------------------------
(* Checks executions recorded from the real ActiveReputationSet against Ars. *)
EXTENDS Ars, Json, IOUtils, TLC
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tid, l, got
tvars == <<arsVars, tid, l, got>>
Init == /\ tid \in 1..Len(Traces) /\ l = 0
        /\ ArsInit(Traces[tid].cfg.cap) /\ got = [ok |-> TRUE, active |-> <<>>, n |-> 0]
Ev == Traces[tid].steps[l + 1]
IsEvent(e) == /\ l < Len(Traces[tid].steps) /\ Ev.op = e
              /\ l' = l + 1 /\ tid' = tid /\ got' = Ev.obs
TPush   == IsEvent("push") /\ Push(Ev.ids) /\ OnlyActors(Ev.ids)
TUpdate == IsEvent("update") /\ Update(Ev.ids, Ev.e) /\ OnlyActors(Ev.ids)
TClear  == IsEvent("clear") /\ Clear
TReload == IsEvent("reload") /\ Reload
TEnd    == l = Len(Traces[tid].steps) /\ UNCHANGED tvars
Next == TPush \/ TUpdate \/ TClear \/ TReload \/ TEnd
Spec == Init /\ [][Next]_tvars
Conforms == got = [ok |-> ok, active |-> [i \in Active |-> TRUE], n |-> Cardinality(Active)]
=============================================================================
