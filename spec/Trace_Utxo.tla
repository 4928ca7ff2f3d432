----------------------------- MODULE Trace_Utxo -----------------------------
(* Checks executions recorded from the real pool of unspent outputs against Utxo. *)
EXTENDS Utxo, Json, IOUtils, TLC
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tid, l, got
tvars == <<utxoVars, tid, l, got>>
Init == /\ tid \in 1..Len(Traces) /\ l = 0 /\ UtxoInit /\ got = <<>>
Ev == Traces[tid].steps[l + 1]
IsEvent(e) == /\ l < Len(Traces[tid].steps) /\ Ev.op = e
              /\ l' = l + 1 /\ tid' = tid /\ got' = <<Ev.obs>>
Items4(s) == [k \in {s[i][1] : i \in 1..Len(s)} |-> LET i == CHOOSE i \in 1..Len(s) : s[i][1] = k IN [o |-> s[i][2], v |-> s[i][3], n |-> s[i][4]]]
Next == \/ IsEvent("begin") /\ Begin(Ev.n)
        \/ IsEvent("create") /\ Create(Ev.id, Ev.o, Ev.v, Ev.n)
        \/ IsEvent("spend") /\ Spend(Ev.id)
        \/ IsEvent("discard") /\ Discard
        \/ IsEvent("consolidate") /\ Consolidate
        \/ IsEvent("snapshot") /\ Snapshot
        \/ IsEvent("persist") /\ Persist
        \/ IsEvent("persistall") /\ PersistAll
        \/ IsEvent("restart") /\ Restart
        \/ IsEvent("fail") /\ Restart
        \/ IsEvent("wipe") /\ Wipe
        \/ IsEvent("migrate") /\ Migrate(Items4(Ev.items))
        \/ l = Len(Traces[tid].steps) /\ UNCHANGED tvars
Spec == Init /\ [][Next]_tvars
Set(s) == {s[i] : i \in 1..Len(s)}
Same(s, S) == Len(s) = Cardinality(S) /\ Set(s) = S
Conforms ==
  got # <<>> =>
    LET o == got[1]  want == Obs(1..Traces[tid].cfg.owners)
    IN  /\ o.res = want.res /\ o.mark = want.mark /\ o.ok
        /\ Same(o.all, want.all) /\ Same(o.disk, want.disk) /\ Same(o.seen, want.seen) /\ Same(o.dated, want.dated)
        /\ \A x \in Set(o.own) : \E y \in want.own : y[1] = x[1] /\ Same(x[2], y[2]) /\ Same(x[3], y[3])
        /\ Len(o.own) = Cardinality(want.own)
=============================================================================
