----------------------------- MODULE Trace_Vault -----------------------------
EXTENDS Vault, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
\* `pool': the pieces of 16 bytes that random answers were made of
VARIABLES tid, l, got, seen, pool, fresh
tvars == <<vVars, tid, l, got, seen, pool, fresh>>
Init == VInit /\ tid \in 1..Len(Traces) /\ l = 0 /\ got = [ok |-> TRUE, bytes |-> "", len |-> 0] /\ seen = {} /\ pool = {} /\ fresh = TRUE
More == l < Len(Traces[tid].steps)
Ev == Traces[tid].steps[l + 1]
Produces(op) == op \in {"enc", "stretch"} \/ (op = "random" /\ out'.ct.len >= 16)
Step == /\ l' = l + 1 /\ tid' = tid /\ got' = Ev.obs
        /\ seen' = IF Ev.obs.ok /\ Produces(Ev.op) THEN seen \cup {<<out'.ct, Ev.obs.bytes>>} ELSE seen
        /\ IF Ev.op = "random"
             THEN LET new == {Ev.pieces[i] : i \in 1..Len(Ev.pieces)}
                  IN  pool' = pool \cup new /\ fresh' = (Cardinality(new) = Len(Ev.pieces) /\ new \cap pool = {})
             ELSE pool' = pool /\ fresh' = TRUE
Next == \/ More /\ Ev.op = "enc" /\ Encrypt(Ev.c, Ev.k, Ev.iv, Ev.pt) /\ Step
        \/ More /\ Ev.op = "dec" /\ Decrypt(Ev.c, Ev.k, Ev.iv) /\ Step
        \/ More /\ Ev.op = "alter" /\ Alter(Ev.c, Ev.from, Ev.t, Ev.cut) /\ Step
        \/ More /\ Ev.op = "stretch" /\ Stretch(Ev.pw, Ev.salt, Ev.n) /\ Step
        \/ More /\ Ev.op = "random" /\ Random(Ev.n, Ev.serial) /\ Step
        \/ ~More /\ UNCHANGED tvars
Spec == Init /\ [][Next]_tvars
Last == Traces[tid].steps[l].op
Conforms == l > 0 =>
  /\ out.must => got.ok = out.ok
  /\ (Last = "dec" /\ out.must /\ out.ok) => got.bytes = out.pt
  /\ (Last = "dec" /\ out.not /\ got.ok) => got.bytes # out.pt
  /\ fresh
  /\ (Last = "stretch" => got.bytes = Traces[tid].steps[l].want)
  /\ (Last # "dec" /\ out.ok) => got.len = out.ct.len
\* the same question always has the same answer, different questions different answers
OneToOne == (l > 0 /\ \E b \in seen : b[1] = out.ct /\ Last # "dec") =>
              \A a \in {b \in seen : b[1] = out.ct}, b \in seen : (a[1] = b[1]) <=> (a[2] = b[2])
=============================================================================
