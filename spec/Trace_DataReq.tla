--------------------------- MODULE Trace_DataReq ----------------------------
(* Checks executions recorded from the real pool of data requests against DataReq. *)
EXTENDS DataReq, Json, IOUtils, TLC
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tid, l, got
tvars == <<dqVars, tid, l, got>>
C == Traces[tid].cfg
Init == /\ tid \in 1..Len(Traces) /\ l = 0 /\ DqInit(C.extra) /\ got = <<>>
Ev == Traces[tid].steps[l + 1]
IsEvent(e) == /\ l < Len(Traces[tid].steps) /\ Ev.op = e
              /\ l' = l + 1 /\ tid' = tid /\ got' = <<Ev.obs>>
Set(s) == {s[i] : i \in 1..Len(s)}
Done(r) == [id |-> r.id, cr |-> r.cr, rr |-> r.rr, cms |-> Set(r.cms), rvs |-> Set(r.rvs)]
Next == \/ IsEvent("request") /\ Request(Ev.id, Ev.ep, [n |-> Ev.n, reward |-> Ev.reward, fee |-> Ev.fee, col |-> Ev.col])
        \/ IsEvent("commit") /\ Commit(Ev.id, Ev.who)
        \/ IsEvent("reveal") /\ Reveal(Ev.id, Ev.who)
        \/ IsEvent("tally") /\ Tally(Ev.id)
        \/ IsEvent("keep") /\ Keep(Ev.id, Ev.who)
        \/ IsEvent("epoch") /\ NewEpoch(C.vals, C.div, Ev.e >= C.v2at)
        \/ IsEvent("finished") /\ Len(Ev.obs.done) = Len(done) /\ (\A i \in 1..Len(done) : Done(Ev.obs.done[i]) = done[i]) /\ Finished
        \/ IsEvent("reload") /\ Reload
        \/ l = Len(Traces[tid].steps) /\ UNCHANGED tvars
Spec == Init /\ [][Next]_tvars
Same(s, S) == Len(s) = Cardinality(S) /\ Set(s) = S
Conforms ==
  got # <<>> =>
    LET o == got[1]  w == Obs(C.mincol, Set(C.eps), C.vals, C.div, C.v2at)
    IN  /\ o.same
        /\ IF Traces[tid].steps[l].op = "epoch" THEN Same(o.res, res) ELSE o.res = res
        /\ Len(o.st) = Cardinality(w.st)
        /\ \A x \in Set(o.st) : <<x[1], x[2], x[3], x[4], Set(x[5]), Set(x[6]), x[7]>> \in w.st
        /\ \A x \in Set(o.upto) : \E y \in w.upto : y[1] = x[1] /\ Same(x[2], y[2])
        /\ Same(o.ready, w.ready) /\ o.locked = w.locked
        /\ Len(o.all) = Cardinality(w.all) /\ \A x \in Set(o.all) : <<x[1], Set(x[2])>> \in w.all
        /\ DqInv
=============================================================================
