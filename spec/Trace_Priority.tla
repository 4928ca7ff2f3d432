---------------------------- MODULE Trace_Priority ----------------------------
EXTENDS Priority, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tid, l, got, x
tvars == <<tid, l, got, x>>
Init == tid \in 1..Len(Traces) /\ l = 0 /\ got = <<>> /\ x = Fresh(Traces[tid].cfg.cap)
Ev == Traces[tid].steps[l + 1]
Next == \/ l < Len(Traces[tid].steps) /\ l' = l + 1 /\ tid' = tid /\ got' = <<Ev>> /\ x' = (IF Ev.op = "block" THEN Push(x, Seen(Ev.txs)) ELSE x)
        \/ l = Len(Traces[tid].steps) /\ UNCHANGED tvars
Spec == Init /\ [][Next]_tvars
Answer(e) == LET o == e.obs IN
  CASE e.op = "block" -> o.r = "ok" /\ o.seen = x.q[1] /\ o.n = Len(x.q) /\ o.newest = x.q[1] /\ o.oldest = x.q[Len(x.q)]
    [] Len(x.q) < Enough -> o = Few(x, e.secs)
    [] e.secs > 65535 -> o = [r |-> "secs"]
    [] OTHER -> /\ o.r = "ok"
                /\ LET a == Advice(x, e.secs) IN \A k \in Kinds : \A t \in 1..5 : o.est[k][t].p \in a[k][t] /\ o.est[k][t].t = Minutes[t] * 60
Conforms == got # <<>> => Answer(got[1])
Rules == PriorityInv(x) /\ (got # <<>> /\ got[1].op = "ask" /\ Len(x.q) >= Enough /\ got[1].secs <= 65535 => Sensible(x, got[1].secs))
=============================================================================
