------------------------------- MODULE Lin_Kv -------------------------------
(* Linearisability of concurrent histories of one database.  An operation   *)
(* takes effect at one moment between its call and its return (`t0', `t1'   *)
(* come from one global counter), and the map is the one of Kv: what it     *)
(* read has to be what the map held at that moment.  Batches are one        *)
(* operation, so nobody sees half of one.                                   *)
EXTENDS Kv, Json, IOUtils, TLC
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tid, done
lvars == <<kvVars, tid, done>>
Ops == Traces[tid].steps
N == Len(Ops)
Init == tid \in 1..Len(Traces) /\ KvInit("map") /\ done = {}
Ready(i) == i \notin done /\ \A j \in (1..N) \ done : j = i \/ ~(Ops[j].t1 < Ops[i].t0)
Effect(o) ==
  \/ o.op = "get" /\ Get(o.k, FALSE)
  \/ o.op = "put" /\ Put(o.k, o.v, FALSE)
  \/ o.op = "delete" /\ Delete(o.k, FALSE)
  \/ o.op = "write" /\ Write(o.b, FALSE)
  \/ o.op = "scan" /\ Scan(o.p)
Next == \E i \in 1..N : /\ Ready(i) /\ Effect(Ops[i])
                        /\ Ops[i].obs.ok = out'.ok /\ Ops[i].obs.val = out'.val
                        /\ done' = done \cup {i} /\ tid' = tid
                        /\ (done' = 1..N => PrintT("@@" \o ToString(tid)))
Spec == Init /\ [][Next]_lvars
LView == <<tid, done, db>>
=============================================================================
