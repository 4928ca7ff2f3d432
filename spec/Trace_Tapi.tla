----------------------------- MODULE Trace_Tapi -----------------------------
EXTENDS Tapi, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tid, l, got
tvars == <<tapiVars, tid, l, got>>
Init == tid \in 1..Len(Traces) /\ l = 0 /\ TapiInit /\ got = <<>>
Ev == Traces[tid].steps[l + 1]
IsEvent(e) == l < Len(Traces[tid].steps) /\ Ev.op = e /\ l' = l + 1 /\ tid' = tid /\ got' = <<Ev>>
S(x) == Range(x)
Next == \/ IsEvent("insert") /\ Offer(Ev.b, [w |-> Ev.w, init |-> Ev.init, period |-> Ev.period, end |-> Ev.end, votes |-> 0])
        \/ IsEvent("remove") /\ Withdraw(Ev.b)
        \/ IsEvent("vote") /\ Vote(S(Ev.bits), Ev.e, Ev.at, S(Ev.avoid))
        \/ IsEvent("load") /\ Load(Ev.env)
        \/ IsEvent("ask") /\ UNCHANGED tapiVars
        \/ l = Len(Traces[tid].steps) /\ UNCHANGED tvars
Spec == Init /\ [][Next]_tvars
Same(o) == /\ o.slots = List(slots) /\ o.pending = Pending(slots, force) /\ o.len = Length(slots) /\ o.last = last
           /\ Len(o.force) = Cardinality(DOMAIN force) /\ S(o.force) = {<<w, force[w]>> : w \in DOMAIN force}
Conforms ==
  got # <<>> =>
    LET ev == got[1]  o == ev.obs
    IN  /\ Same(o)
        /\ ev.op = "load" => o.new = -1 /\ o.old = <<>>
        /\ ev.op = "ask" => \A i \in 1..Len(ev.eps) : /\ S(o.voting[i]) = Voting(ev.eps[i]) /\ S(o.on[i]) = {w \in DOMAIN force : InForce(force, w, ev.eps[i])}
                                                      /\ S(o.rules[i]) = Rules(force, ev.eps[i])
                                                      /\ o.main[i] = Forks(ev.eps[i], "main") /\ o.test[i] = Forks(ev.eps[i], "test")
                                                      /\ o.emergency[i] = Emergency(ev.eps[i])
                                                      /\ S(o.now[i]) = Rules(Known("main"), ev.eps[i])
=============================================================================
