--------------------------- MODULE Trace_Spending ---------------------------
EXTENDS Spending, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tid, l, got
tvars == <<spendVars, tid, l, got>>
Init == tid \in 1..Len(Traces) /\ l = 0 /\ SpendingInit(Traces[tid].cfg.patience) /\ got = <<>>
Ev == Traces[tid].steps[l + 1]
IsEvent(e) == l < Len(Traces[tid].steps) /\ Ev.op = e /\ l' = l + 1 /\ tid' = tid /\ got' = <<Ev>>
Next == \/ IsEvent("make") /\ (IF Ev.kind = "co" /\ Ev.dry THEN /\ res' = [res |-> "could", can |-> Could(Ev, Traces[tid].cfg.floor)]
                                                               /\ UNCHANGED <<pool, kept, mark, made, height, next, patience>>
                               ELSE Make(Ev, Ev.obs))
        \/ IsEvent("mine") /\ Mine(Ev.ks, Ev.pays)
        \/ IsEvent("leak") /\ Leak(Ev.is)
        \/ IsEvent("persist") /\ Persist
        \/ IsEvent("again") /\ Again
        \/ IsEvent("look") /\ res' = [res |-> "seen"] /\ UNCHANGED <<pool, kept, mark, made, height, next, patience>>
        \/ l = Len(Traces[tid].steps) /\ UNCHANGED tvars
Spec == Init /\ [][Next]_tvars
Marks == LET q == SetToSortSeq(DOMAIN mark, <) IN [i \in 1..Len(q) |-> <<q[i], mark[q[i]]>>]
(* long after the day of this run, or long before *)
Info(a, limit) == LET q == SetToSortSeq({i \in DOMAIN pool : pool[i].a = a}, <) IN
                  [i \in 1..Len(q) |-> <<q[i], pool[q[i]].v, IF pool[q[i]].lock < 1000000 THEN 0 ELSE pool[q[i]].lock, pool[q[i]].at <= limit>>]
Conforms ==
  got # <<>> =>
    LET ev == got[1]  o == ev.obs
    IN  /\ ev.op # "make" \/ res.res = "could" => o.res = res.res
        /\ res.res = "could" => o.can = res.can
        /\ res.res \in {"mined", "left"} => o.n = res.n
        /\ o.own = Marks /\ o.purse = Balance(1).total
        /\ o.balance = [a \in 1..2 |-> <<Balance(a).total, Balance(a).confirmed>>]
        /\ ev.op = "look" => o.locked = Of(pool, ev.a, ev.t, TRUE) /\ o.unlocked = Of(pool, ev.a, ev.t, FALSE) /\ o.info = Info(ev.a, ev.limit)
        /\ SpendInv
=============================================================================
