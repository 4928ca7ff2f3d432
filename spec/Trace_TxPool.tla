---------------------------- MODULE Trace_TxPool ----------------------------
(* Checks executions recorded from the real transactions pool against TxPool. *)
EXTENDS TxPool, Json, IOUtils, TLC
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tid, l, got
tvars == <<tpVars, tid, l, got>>
Init == /\ tid \in 1..Len(Traces) /\ l = 0 /\ TpInit /\ got = <<>>
Ev == Traces[tid].steps[l + 1]
IsEvent(e) == /\ l < Len(Traces[tid].steps) /\ Ev.op = e
              /\ l' = l + 1 /\ tid' = tid /\ got' = <<Ev.obs>>
Tx == [k |-> Ev.k, ins |-> Elems(Ev.ins), fee |-> Ev.fee, w |-> WeightOf(Ev.k, Len(Ev.ins), Ev.o, Ev.n)]
Next == \/ IsEvent("minfee") /\ SetMinFee(Ev.v)
        \/ IsEvent("add") /\ IF Ev.id \in DOMAIN pool THEN AddKnown(Ev.id) ELSE Add(Ev.id, Tx, Ev.rich, Ev.obs.ret)
        \/ IsEvent("limit") /\ Limit([max |-> Ev.max, num |-> Ev.num, den |-> Ev.den], Ev.obs.ret)
        \/ IsEvent("mined") /\ Mined(Ev.id, Elems(Ev.ins))
        \/ IsEvent("spent") /\ Spent(Elems(Ev.ins))
        \/ IsEvent("invalid") /\ Invalid(Ev.k, Elems(Ev.ids))
        \/ IsEvent("clearkind") /\ ClearKind(Ev.k)
        \/ IsEvent("clear") /\ Clear
        \/ IsEvent("unconfirmed") /\ Unconfirmed(Ev.id)
        \/ IsEvent("epoch") /\ NewEpoch
        \/ IsEvent("reorg") /\ Reorg(Ev.obs.ret)
        \/ IsEvent("dr") /\ Dr(Ev.dr, Ev.n, Ev.f)
        \/ IsEvent("commit") /\ Commit([dr |-> Ev.dr, who |-> Ev.who, id |-> Ev.id, ins |-> Elems(Ev.ins)])
        \/ IsEvent("reveal") /\ Reveal([dr |-> Ev.dr, who |-> Ev.who, id |-> Ev.id])
        \/ IsEvent("revealmined") /\ RevealMined(Ev.id)
        \/ IsEvent("finish") /\ Finish(Ev.dr)
        \/ IsEvent("clearcommits") /\ ClearCommits
        \/ IsEvent("minecommits") /\ LET ids == Elems(Ev.obs.ret[1]) IN
              /\ Len(Ev.obs.ret[1]) = Cardinality(ids) /\ ids \subseteq {c.id : c \in cms}
              /\ MineCommits({c \in cms : c.id \in ids})
        \/ l = Len(Traces[tid].steps) /\ UNCHANGED tvars
Spec == Init /\ [][Next]_tvars
Sorted(s, k) == /\ Elems(s) = Kind(pool, k) /\ Len(s) = Cardinality(Kind(pool, k))
                /\ \A i \in 1..Len(s) - 1 : pool[s[i]].fee * pool[s[i + 1]].w >= pool[s[i + 1]].fee * pool[s[i]].w
Ret(r) == IF Len(ret) = 2 /\ l > 0 /\ Traces[tid].steps[l].op = "minecommits" THEN r[2] = ret[2] ELSE r = ret
Same(s, S) == Elems(s) = S /\ Len(s) = Cardinality(S)
Conforms ==
  got # <<>> =>
    LET o == got[1]  t == Totals
    IN  /\ o.same /\ Ret(o.ret)
        /\ Sorted(o.vt, "vt") /\ Sorted(o.dr, "dr") /\ Sorted(o.st, "st") /\ Sorted(o.ut, "ut")
        /\ Same(o.co, t.co) /\ Same(o.re, t.re) /\ Same(o.block_re, t.block_re)
        /\ o.re_fee = t.re_fee /\ o.total = t.total /\ o.empty = t.empty
        /\ TpInv
=============================================================================
