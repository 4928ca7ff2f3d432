--------------------------- MODULE Trace_Versions ---------------------------
EXTENDS Versions, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tid, l, got
tvars == <<versionVars, tid, l, got>>
Init == tid \in 1..Len(Traces) /\ l = 0 /\ VersionsInit /\ got = <<>>
C == Traces[tid].cfg
Ev == Traces[tid].steps[l + 1]
IsEvent(e) == l < Len(Traces[tid].steps) /\ Ev.op = e /\ l' = l + 1 /\ tid' = tid /\ got' = <<Ev>>
Next == \/ IsEvent("register") /\ Register(Ev.v, Ev.e, Ev.s)
        \/ IsEvent("clear") /\ Clear
        \/ IsEvent("use") /\ Use(Ev.v)
        \/ IsEvent("refresh") /\ Refresh(Ev.e)
        \/ IsEvent("reload") /\ UNCHANGED versionVars
        \/ IsEvent("ask") /\ UNCHANGED versionVars
        \/ l = Len(Traces[tid].steps) /\ UNCHANGED tvars
Spec == Init /\ [][Next]_tvars
Conforms ==
  got # <<>> =>
    LET ev == got[1]  o == ev.obs  s == IF ev.op = "ask" THEN o.seen ELSE o
    IN  /\ s.now = now /\ s.start = [v \in All |-> Start(v)] /\ s.secs = [v \in All |-> Seconds(v)]
        /\ s.began = [v \in All |-> Began(v, C.z, C.p)]
        /\ ev.op = "ask" =>
             /\ \A i \in 1..Len(ev.es) : o.at[i] = At(ev.es[i]) /\ o.rules[i] = Rules(ev.es[i], C.env)
             /\ \A i \in 1..Len(ev.fs) : o.factors[i] = Factor(ev.fs[i][1], ev.fs[i][2])
             /\ o.fixed = Fixed(C.env) /\ o.wit2 = (IF Known(3) THEN C.z + C.p * From(3) ELSE -1)
             /\ \A v, w \in All : o.order[v][w] = (IF v < w THEN -1 ELSE IF v = w THEN 0 ELSE 1)
             /\ o.next = <<2, 3, 4, 4>> /\ o.prev = <<1, 1, 2, 3>>
=============================================================================
