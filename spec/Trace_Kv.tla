------------------------------ MODULE Trace_Kv ------------------------------
EXTENDS Kv, Json, IOUtils, TLC
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tid, l, got
tvars == <<kvVars, tid, l, got>>
Init == tid \in 1..Len(Traces) /\ KvInit(Traces[tid].cfg.backend) /\ l = 0 /\ got = out
Ev == Traces[tid].steps[l + 1]
IsEvent(e) == /\ l < Len(Traces[tid].steps) /\ Ev.op = e
              /\ l' = l + 1 /\ tid' = tid /\ got' = Ev.obs
TGet    == IsEvent("get") /\ Get(Ev.k, Ev.f)
TPut    == IsEvent("put") /\ Put(Ev.k, Ev.v, Ev.f)
TDelete == IsEvent("delete") /\ Delete(Ev.k, Ev.f)
TWrite  == IsEvent("write") /\ Write(Ev.b, Ev.f)
TScan   == IsEvent("scan") /\ Scan(Ev.p)
TEnd    == l = Len(Traces[tid].steps) /\ UNCHANGED tvars
Next == TGet \/ TPut \/ TDelete \/ TWrite \/ TScan \/ TEnd
Spec == Init /\ [][Next]_tvars
Conforms == got = out
=============================================================================
