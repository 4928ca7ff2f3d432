---------------------------- MODULE Trace_Session ----------------------------
EXTENDS Session, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tid, l, got, x
tvars == <<tid, l, got, x>>
Init == tid \in 1..Len(Traces) /\ l = 0 /\ got = <<>> /\ x = Fresh(1000, {})
Ev == Traces[tid].steps[l + 1]
Next == \/ l < Len(Traces[tid].steps) /\ l' = l + 1 /\ tid' = tid /\ got' = <<Ev>> /\ x' = Do([x EXCEPT !.out = Quiet], Ev)
        \/ l = Len(Traces[tid].steps) /\ UNCHANGED tvars
Spec == Init /\ [][Next]_tvars
Seen(o) == /\ o.on = x.on /\ o.waits = x.wait.k /\ o.sent = x.out.sent /\ o.chain = x.out.chain /\ o.peers = x.out.peers
           /\ o.sess = x.out.sess /\ o.epochs = x.out.epochs
Conforms == got # <<>> => Seen(got[1].obs)
Rules == SessionInv(x) /\ Heard(x)
=============================================================================
