--------------------------- MODULE Trace_Inventory ---------------------------
EXTENDS Inventory, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tid, l, got, x, fits
tvars == <<tid, l, got, x, fits>>
Init == tid \in 1..Len(Traces) /\ l = 0 /\ got = <<>> /\ x = Fresh /\ fits = TRUE
Ev == Traces[tid].steps[l + 1]
Same(y, o) == /\ y.res = o.res
              /\ LET v == View0(y) IN v.blocks = o.blocks /\ v.txs = o.txs /\ v.supers = o.supers /\ v.state = o.state
(* where a failure strikes is up to the database; what is there afterwards tells *)
Outcomes(e) == IF ~e.obs.given THEN {Do(x, e)}
               ELSE CASE e.op = "add" -> {Failed(x, e, k) : k \in 0..(Len(Writes(e.es)) - 1)}
                      [] e.op = "blocks" -> {FailedBlocks(x, e, k) : k \in 1..Len(e.ns)}
                      [] OTHER -> {Failed(x, e, 0)}
Next == \/ /\ l < Len(Traces[tid].steps) /\ l' = l + 1 /\ tid' = tid /\ got' = <<Ev>>
           /\ LET ys == {y \in Outcomes(Ev) : Same(y, Ev.obs)} IN
                IF ys = {} THEN fits' = FALSE /\ x' = x ELSE fits' = TRUE /\ x' = CHOOSE y \in ys : TRUE
        \/ l = Len(Traces[tid].steps) /\ UNCHANGED tvars
Spec == Init /\ [][Next]_tvars
Conforms == fits
Rules == InventoryInv(x)
=============================================================================
