---------------------------- MODULE Trace_Blocks ----------------------------
(* Checks blocks given to the real validation against Blocks. *)
EXTENDS Blocks, Json, IOUtils, TLC
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tid, l, got
tvars == <<vars, tid, l, got>>
Init == /\ tid \in 1..Len(Traces) /\ l = 0 /\ BlocksInit(Traces[tid].cfg) /\ got = <<>>
Ev == Traces[tid].steps[l + 1]
IsEvent(e) == /\ l < Len(Traces[tid].steps) /\ Ev.op = e
              /\ l' = l + 1 /\ tid' = tid /\ got' = <<Ev.obs>>
Next == \/ IsEvent("block") /\ Block(Ev)
        \/ IsEvent("genesis") /\ Genesis(Ev)
        \/ IsEvent("pooled") /\ Pooled(Ev.ep, Ev.kind, Ev.tx)
        \/ l = Len(Traces[tid].steps) /\ UNCHANGED tvars
Spec == Init /\ [][Next]_tvars
Conforms == (got # <<>> => got[1] = Obs) /\ Conserved /\ StakesValid
=============================================================================
