--------------------------- MODULE Trace_Candidates ---------------------------
(* Checks executions recorded from the real code against Candidates. *)
EXTENDS Candidates, Json, IOUtils, TLC
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tid, l, got
tvars == <<tid, l, got>>
Init == tid \in 1..Len(Traces) /\ l = 0 /\ got = <<>>
Next == \/ l < Len(Traces[tid].steps) /\ l' = l + 1 /\ tid' = tid /\ got' = <<Traces[tid].steps[l + 1]>>
        \/ l = Len(Traces[tid].steps) /\ UNCHANGED tvars
Spec == Init /\ [][Next]_tvars
Near(a, b, d) == a <= b + d /\ b <= a + d
Conforms ==
  got # <<>> =>
    LET ev == got[1]  o == ev.obs
    IN  CASE ev.op = "order" -> o.m = Matrix(ev.t, ev.v2, ev.cs) /\ o.best = Best(ev.t, ev.v2, ev.cs)
          [] ev.op = "slots" -> LET s == Slots(ev.n, ev.rf, ev.bf, ev.ep, ev.diff, ev.easy, ev.wips)
                                IN  /\ o.slots = s /\ o.rest /\ o.one = Randpoe(ev.n, ev.rf, ev.ep, ev.diff, ev.easy, ev.wips)
                                    /\ Near(o.approx, Frac(o.one), 1)
=============================================================================
