----------------------------- MODULE Trace_Clock -----------------------------
EXTENDS Clock, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tid, l, got
tvars == <<clockVars, tid, l, got>>
Init == tid \in 1..Len(Traces) /\ l = 0 /\ ClockInit(Traces[tid].cfg.p, Traces[tid].cfg.z) /\ got = <<>>
Ev == Traces[tid].steps[l + 1]
IsEvent(e) == l < Len(Traces[tid].steps) /\ Ev.op = e /\ l' = l + 1 /\ tid' = tid /\ got' = <<Ev>>
Next == \/ IsEvent("begin") /\ Begin(Ev.p, Ev.e)
        \/ IsEvent("ask") /\ UNCHANGED clockVars
        \/ l = Len(Traces[tid].steps) /\ UNCHANGED tvars
Spec == Init /\ [][Next]_tvars
Conforms ==
  got # <<>> =>
    LET ev == got[1]  o == ev.obs
    IN  IF ev.op = "begin" THEN o.ok = (v2 # <<>>)
        ELSE /\ \A i \in 1..Len(ev.es) : o.epochs[i] = <<Stamp(ev.es[i]), Mining(ev.es[i]), IF Stamp(ev.es[i]) = None THEN None ELSE OfInt(Period(ev.es[i]))>>
             /\ \A i \in 1..Len(ev.ts) : o.at[i] = EpochAt(ev.ts[i])
             /\ \A i \in 1..Len(ev.rs) : LET r == ev.rs[i] IN o.pay[i] = <<Reward(r.first, r.e, r.halving), Total(r.first, r.halving)>>
=============================================================================
