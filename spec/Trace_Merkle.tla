---------------------------- MODULE Trace_Merkle ----------------------------
EXTENDS Merkle, Json, IOUtils, TLC
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tid, l, got
tvars == <<mVars, tid, l, got>>
Init == MInit /\ tid \in 1..Len(Traces) /\ l = 0 /\ got = out
Ev == Traces[tid].steps[l + 1]
IsEvent(e) == /\ l < Len(Traces[tid].steps) /\ Ev.op = e
              /\ l' = l + 1 /\ tid' = tid /\ got' = Ev.obs
TBuild == IsEvent("build") /\ Build(Ev.s)
TPush  == IsEvent("push") /\ Push(Ev.x)
TProof == IsEvent("proof") /\ Proof(Ev.i)
TForge == IsEvent("forge") /\ Forge(Ev.path, Ev.e, Ev.r)
TEnd   == l = Len(Traces[tid].steps) /\ UNCHANGED tvars
Next == TBuild \/ TPush \/ TProof \/ TForge \/ TEnd
Spec == Init /\ [][Next]_tvars
Conforms == got = out
=============================================================================
