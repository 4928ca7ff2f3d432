--------------------------- MODULE Trace_RepEngine ---------------------------
(* Checks executions recorded from the real code against RepEngine. *)
EXTENDS RepEngine, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tid, l, got
tvars == <<repVars, tid, l, got>>
Init == tid \in 1..Len(Traces) /\ l = 0 /\ RepInit(Traces[tid].cfg.cap) /\ got = <<>>
Ev == Traces[tid].steps[l + 1]
IsEvent(e) == /\ l < Len(Traces[tid].steps) /\ Ev.op = e
              /\ l' = l + 1 /\ tid' = tid /\ got' = <<Ev>>
Next == \/ IsEvent("block") /\ Block(Traces[tid].cfg.k, Ev.miner, Ev.rs, Ev.diff, Ev.ep) /\ BlockExact(Traces[tid].cfg.k, Ev.diff)
        \/ IsEvent("gain") /\ Earn(Ev.e, Ev.d)
        \/ IsEvent("penalize") /\ Lose(Ev.ps)
        \/ IsEvent("expire") /\ Lapse(Ev.a)
        \/ IsEvent("act") /\ Act(Ev.ids)
        \/ IsEvent("alpha") /\ SetAlpha(Ev.a)
        \/ IsEvent("key") /\ Key(Ev.id)
        \/ (IsEvent("reload") \/ IsEvent("clear") \/ IsEvent("ask")) /\ Same
        \/ l = Len(Traces[tid].steps) /\ UNCHANGED tvars
Spec == Init /\ [][Next]_tvars
Near(a, b, d) == a <= b + d /\ b <= a + d
Get0(pairs, id) == IF \E p \in Elems(pairs) : p[1] = id THEN (CHOOSE p \in Elems(pairs) : p[1] = id)[2] ELSE 0
Conforms ==
  got # <<>> =>
    LET ev == got[1]  o == ev.obs IN
    /\ o.alpha = alpha /\ o.extra = extra
    /\ {<<p[1], p[2]>> : p \in Elems(o.bal)} = {<<id, Rep(queue, id)>> : id \in Ids(queue)}
    /\ Elems(o.keys) = keys
    /\ (ev.op # "ask" \/
         LET list == Ordered(o.given)
             reputed == Reputed(list)
             seen == [i \in 1..Len(reputed) |-> Get0(o.elig, reputed[i])]
             ws == Weights(list, seen)
             total == SumSeq(ws)
         IN  /\ o.list = list
             /\ \E up \in SUBSET Halves(list) : Trapezoid(list, up) = seen
             /\ \A p \in Elems(o.elig) : p[2] # 0 => p[1] \in Elems(reputed)
             /\ o.total = total /\ o.same
             /\ Len(o.factors) = Len(ev.ns)
             /\ \A i \in 1..Len(ev.ns) : o.factors[i] = Factor(ev.ns[i], total, total, ws)
             /\ Len(o.targets) = Len(ev.qs)
             /\ \A i \in 1..Len(ev.qs) :
                   LET q == ev.qs[i]  t == Reppoe(Get0(o.elig, q.id), total, q.n, q.diff, q.wip16, q.fork3, Factor(q.n, total, total, ws))
                   IN  o.targets[i] = t /\ Near(o.approx[i], Frac(t), 1)
             /\ Len(o.chance) = Len(ev.ms)
             /\ \A i \in 1..Len(ev.ms) : Near(o.chance[i], MiningChance(ev.ms[i].id, ev.ms[i].rf, ev.ms[i].bf), 100))
=============================================================================
