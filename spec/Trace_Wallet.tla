---------------------------- MODULE Trace_Wallet ----------------------------
EXTENDS Wallet, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tid, l, got
tvars == <<walletVars, tid, l, got>>
Init == tid \in 1..Len(Traces) /\ l = 0 /\ WalletInit(Traces[tid].cfg) /\ got = <<>>
Ev == Traces[tid].steps[l + 1]
IsEvent(e) == l < Len(Traces[tid].steps) /\ Ev.op = e /\ l' = l + 1 /\ tid' = tid /\ got' = <<Ev>>
Next == \/ IsEvent("address") /\ Address(Ev.kind, Ev.label, Ev.fail)
        \/ IsEvent("block") /\ Block(Ev.b, Ev.ep, Ev.sure, Ev.txs, Ev.fail)
        \/ IsEvent("super") /\ Super(Ev.bs, Ev.fail)
        \/ IsEvent("orphan") /\ Orphan
        \/ IsEvent("restart") /\ Restart
        \/ IsEvent("wipe") /\ Wipe(Ev.fail)
        \/ IsEvent("syncing") /\ Syncing(Ev.on)
        \/ IsEvent("rename") /\ Rename(Ev.name, Ev.text)
        \/ IsEvent("note") /\ Note(Ev.key, Ev.v)
        \/ IsEvent("send") /\ Send(Ev, IF Ev.obs.res = "ok" THEN Ev.obs.ins ELSE <<>>)
        \/ IsEvent("local") /\ Local(Ev.tx)
        \/ l = Len(Traces[tid].steps) /\ UNCHANGED tvars
Spec == Init /\ [][Next]_tvars
Has(o, r) == \A f \in DOMAIN r \ {"none", "ok"} : f \in DOMAIN o /\ o[f] = r[f]
Bare(m) == Without(m, {"id"})
Seen(o) ==
  LET nl == Cardinality(DOMAIN w.locals) IN
  /\ o.local = w.local /\ o.unc = w.unc /\ o.conf = w.conf
  /\ Len(o.utxo) = Cardinality(DOMAIN w.utxo) /\ Set(o.utxo) = UtxoView
  /\ o.sync = w.sync /\ o.last = w.last /\ o.name = <<w.name, w.text>>
  /\ o.total = w.next + nl /\ Len(o.list) = o.total
  /\ Set(SubSeq(o.list, 1, nl)) = {Bare(w.locals[t]) : t \in DOMAIN w.locals} /\ \E q \in {Listed(Traces[tid].cfg.page)} : SubSeq(o.list, nl + 1, Len(o.list)) = [i \in 1..Len(q) |-> Bare(q[i])]
  /\ o.ext.n = w.ne /\ o.ext.list = Addresses("E", w.ne) /\ o.int.n = w.ni /\ o.int.list = Addresses("I", w.ni)
Conforms == got # <<>> => Has(got[1].obs, res) /\ (dirty \/ Seen(got[1].obs))
=============================================================================
