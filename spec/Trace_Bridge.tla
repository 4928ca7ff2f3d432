---------------------------- MODULE Trace_Bridge ----------------------------
EXTENDS Bridge, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tid, l, got
tvars == <<brVars, tid, l, got>>
Init == tid \in 1..Len(Traces) /\ l = 0 /\ BridgeInit(Traces[tid].cfg) /\ got = <<>>
Ev == Traces[tid].steps[l + 1]
IsEvent(e) == l < Len(Traces[tid].steps) /\ Ev.op = e /\ l' = l + 1 /\ tid' = tid /\ got' = <<Ev>>
Pick == IF Ev.a = "send" /\ Ev.obs.send # <<>> /\ Ev.obs.send[1].m = "sendRequest" THEN Ev.obs.send[1].d.q
        ELSE IF Ev.a = "wit" /\ Ev.obs.wit # <<>> /\ Ev.obs.wit[1].m = "dataRequestReport" THEN Ev.obs.wit[1].d.tx ELSE 0
Next == \/ IsEvent("post") /\ Post([w |-> Ev.w, r |-> Ev.r, c |-> Ev.c, pct |-> Ev.pct, form |-> Ev.form])
        \/ IsEvent("settle") /\ Elsewhere(Ev.q, Ev.to)
        \/ IsEvent("mine") /\ Mine(Ev.n, Ev.res, Ev.len, Ev.epoch, Ev.round)
        \/ IsEvent("time") /\ Time(Ev.by)
        \/ IsEvent("crash") /\ Crash
        \/ IsEvent("go") /\ Go(Ev.a, Ev.i, Ev.how, IF Ev.a = "send" \/ Ev.a = "wit" THEN Pick ELSE 0, Ev.obs.order)
        \/ l = Len(Traces[tid].steps) /\ UNCHANGED tvars
Spec == Init /\ [][Next]_tvars
Name(i) == "q" \o ToString(i)
Seen(o) ==
  /\ o.done = done /\ o.eth = EthCalls /\ o.send = SndCalls /\ o.wit = WitCalls /\ o.rep = RepCalls /\ o.timers = Timers
  /\ DOMAIN o.db = {Name(i) : i \in Known(b)} /\ \A i \in Known(b) : o.db[Name(i)] = [same |-> TRUE] @@ b.db[i]
  /\ o.max = b.max /\ o.mem = Mem /\ o.chain = Chain /\ o.sent = Sent
Conforms == got # <<>> => Seen(got[1].obs)
=============================================================================
