----------------------------- MODULE Trace_Peers -----------------------------
EXTENDS Peers, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tid, l, got
tvars == <<peerVars, tid, l, got>>
Init == tid \in 1..Len(Traces) /\ l = 0 /\ PeersInit(Traces[tid].cfg) /\ got = <<>>
Ev == Traces[tid].steps[l + 1]
IsEvent(e) == l < Len(Traces[tid].steps) /\ Ev.op = e /\ l' = l + 1 /\ tid' = tid /\ got' = <<Ev>>
Set(q) == {q[i] : i \in 1..Len(q)}
Next == \/ IsEvent("hear") /\ Hear(Ev.as, Ev.src)
        \/ IsEvent("reach") /\ Reach(Ev.a)
        \/ IsEvent("lose") /\ Lose(Ev.as, Ev.aside)
        \/ IsEvent("forget") /\ Forget(Ev.ks)
        \/ IsEvent("freeze") /\ Freeze(Ev.a)
        \/ IsEvent("thaw") /\ Thaw(Set(Ev.as))
        \/ IsEvent("melt") /\ MeltAll
        \/ IsEvent("check") /\ Check(Ev.a)
        \/ IsEvent("edge") /\ Edge(Ev.a, Ev.d)
        \/ IsEvent("pass") /\ Pass(Ev.n)
        \/ IsEvent("up") /\ Up(Ev.b)
        \/ IsEvent("clear") /\ Clear(Ev.what)
        \/ (IsEvent("reload") \/ IsEvent("draw")) /\ res' = <<>> /\ UNCHANGED <<new, tried, ice, clock, up, world>>
        \/ l = Len(Traces[tid].steps) /\ UNCHANGED tvars
Spec == Init /\ [][Next]_tvars
List(f) == [i \in 1..Cardinality(DOMAIN f) |-> LET k == SetToSortSeq(DOMAIN f, <)[i] IN <<k, f[k][1], f[k][2]>>]
Conforms ==
  got # <<>> =>
    LET ev == got[1]  o == ev.obs
    IN  /\ o.res = res /\ o.new = List(new) /\ o.tried = List(tried) /\ o.right
        /\ o.ice = [i \in 1..Cardinality(DOMAIN ice) |-> LET a == SetToSortSeq(DOMAIN ice, <)[i] IN <<a, ice[a]>>]
        /\ o.any = (DOMAIN new # {})
        /\ ev.op = "draw" => /\ \A i \in 1..Len(ev.ns) : Drawn(ev.ns[i], o.drawn[i])
                             /\ o.places = world.tried
=============================================================================
