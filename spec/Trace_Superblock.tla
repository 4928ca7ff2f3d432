-------------------------- MODULE Trace_Superblock ---------------------------
(* Checks executions recorded from the real code against Superblock. *)
EXTENDS Superblock, Json, IOUtils, TLC
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tid, l, got
tvars == <<sbVars, tid, l, got>>
Init == /\ tid \in 1..Len(Traces) /\ l = 0 /\ SbInit(Traces[tid].cfg, Traces[tid].cfg.boot) /\ got = <<>>
Ev == Traces[tid].steps[l + 1]
IsEvent(e) == /\ l < Len(Traces[tid].steps) /\ Ev.op = e
              /\ l' = l + 1 /\ tid' = tid /\ got' = <<Ev.obs>>
V(x) == [w |-> x.w, h |-> x.h, i |-> x.i, s |-> x.s]
B == [ars |-> Ev.ars, keys |-> Elems(Ev.keys), size |-> Ev.size, idx |-> Ev.idx, last |-> Ev.last, ep |-> Ev.ep,
      blocks |-> Ev.blocks, sync |-> Ev.sync]
D == Ev.obs.given
F == LET vs == {V(x) : x \in Elems(Ev.obs.votes)} IN [w \in {v.w : v \in vs} |-> CHOOSE v \in vs : v.w = w]
SaysOf(o) == [len |-> o.len, keys |-> o.keys, idx |-> o.idx, prev |-> o.prev, drs |-> o.drs, tal |-> o.tal, last |-> o.last, sync |-> o.sync]
Next == \/ IsEvent("vote") /\ Vote(V(Ev), Ev.now)
        \/ IsEvent("peek") /\ Peek(B, D) /\ Ev.obs.name = NameOf(Built(B, D)) /\ SaysOf(Ev.obs.sb) = Built(B, D)
        \/ IsEvent("build") /\ Build(B, D, F) /\ Ev.obs.name = beacon'.h /\ SaysOf(Ev.obs.sb) = Built(B, D)
        \/ IsEvent("prove") /\ Prove(Ev.b, Ev.k, Ev.kind) /\ Ev.obs.res = res' /\ Ev.obs.holds
        \/ IsEvent("size") /\ Ask /\ Ev.obs.res = CommitteeSize(Ev.std, Ev.was, Ev.period, Ev.step, Ev.conf, Ev.cur, Ev.boot, Ev.min)
        \/ IsEvent("boot") /\ Ask /\ Ev.obs.res = LastBoot(Ev.age, Ev.active, Ev.period)
        \/ l = Len(Traces[tid].steps) /\ UNCHANGED tvars
Spec == Init /\ [][Next]_tvars
Conforms ==
  got # <<>> =>
    LET o == got[1]
    IN  /\ (Traces[tid].steps[l].op = "vote" => o.res = res)
        /\ Len(o.comm) = Cardinality(comm) /\ Elems(o.comm) = comm /\ o.len = Cardinality(comm)
        /\ o.beacon = <<beacon.i, beacon.h>>
        /\ o.verdict \in Verdicts
        /\ Len(o.votes) = Cardinality(DOMAIN first) /\ {V(x) : x \in Elems(o.votes)} = {first[w] : w \in DOMAIN first}
        /\ o.valid = Cardinality(DOMAIN first)
        /\ \A x \in Elems(o.per) : x[2] = VotesFor(first, x[1])
        /\ {x[1] : x \in Elems(o.per)} = (0..Len(names)) \cup (100..105) /\ Len(o.per) = Len(names) + 7
        /\ (IF DOMAIN first = {} THEN o.most = <<>>
            ELSE o.most[2] = VotesFor(first, o.most[1]) /\ \A h \in Hashes(first) : VotesFor(first, h) <= o.most[2])
        /\ {V(x) : x \in Elems(o.known)} = seen
        /\ SbInv
=============================================================================
