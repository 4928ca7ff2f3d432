--------------------------- MODULE Trace_Sessions ---------------------------
EXTENDS Sessions, SequencesExt, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tid, l, got
tvars == <<sessVars, tid, l, got>>
Init == tid \in 1..Len(Traces) /\ l = 0 /\ SessionsInit(Traces[tid].cfg.ranges) /\ got = <<>>
Ev == Traces[tid].steps[l + 1]
IsEvent(e) == l < Len(Traces[tid].steps) /\ Ev.op = e /\ l' = l + 1 /\ tid' = tid /\ got' = <<Ev>>
Next == \/ IsEvent("register") /\ Register(Ev.side, Ev.a, Ev.ref)
        \/ IsEvent("leave") /\ Leave(Ev.side, Ev.part, Ev.a)
        \/ IsEvent("consolidate") /\ Consolidate(Ev.side, Ev.a)
        \/ IsEvent("agree") /\ Agree(Ev.a)
        \/ IsEvent("disagree") /\ Disagree(Ev.a)
        \/ IsEvent("limits") /\ Limits(Ev.i, Ev.o)
        \/ IsEvent("address") /\ Address(Ev.a)
        \/ IsEvent("bits") /\ Bits(Ev.n)
        \/ l = Len(Traces[tid].steps) /\ UNCHANGED tvars
Spec == Init /\ [][Next]_tvars
Sorted(f) == [i \in 1..Cardinality(DOMAIN f) |-> LET k == SetToSortSeq(DOMAIN f, <)[i] IN <<k, f[k]>>]
All == 1..Len(range)
Conforms ==
  got # <<>> =>
    LET ev == got[1]  o == ev.obs
    IN  /\ o.res = done
        /\ o.iu = Sorted(s["iu"]) /\ o.ic = Sorted(s["ic"]) /\ o.ou = Sorted(s["ou"]) /\ o.oc = Sorted(s["oc"]) /\ o.cc = Sorted(s["cc"])
        /\ o.outs = Outbound /\ o.ins = Size(s["ic"]) /\ o.needed = Needed /\ o.missing = Missing
        /\ o.similar = [a \in All |-> Similar(a)] /\ o.eligible = [a \in All |-> Eligible(a)]
        /\ Someone(FALSE, o.someone) /\ Someone(TRUE, o.safe)
        /\ ev.op = "bits" => o.ranges = [a \in All |-> range[a][ev.n + 1]]
=============================================================================
