----------------------------- MODULE Trace_Keys -----------------------------
(* Recorded executions.  An observation names the term its bytes are the    *)
(* value of, by an independent implementation of BIP-32 and SLIP-32.        *)
EXTENDS Keys, Json, IOUtils, TLC
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tid, l, got
tvars == <<kVars, tid, l, got>>
Init == KInit /\ tid \in 1..Len(Traces) /\ l = 0 /\ got = ""
Ev == Traces[tid].steps[l + 1]
IsEvent(e) == /\ l < Len(Traces[tid].steps) /\ Ev.op = e
              /\ l' = l + 1 /\ tid' = tid
              /\ got' = Ev.obs
TGen    == Gen(Ev.r, Ev.seed, Ev.mac) /\ IsEvent("gen")
TDerive == Derive(Ev.r, Ev.from, Ev.p) /\ IsEvent("derive")
TLook   == Look(Ev.r) /\ (IsEvent("pub") \/ IsEvent("reload") \/ IsEvent("parts"))
TExport == Export(Ev.s, Ev.r, Ev.p) /\ IsEvent("export")
TImport == Import(Ev.r, Ev.s) /\ IsEvent("import")
TCraft  == Craft(Ev.r, Ev.c) /\ IsEvent("craft")
TEnd    == l = Len(Traces[tid].steps) /\ UNCHANGED tvars
More    == l < Len(Traces[tid].steps)
Next == \/ More /\ Ev.op = "gen" /\ TGen
        \/ More /\ Ev.op = "derive" /\ TDerive
        \/ More /\ Ev.op \in {"pub", "reload", "parts"} /\ TLook
        \/ More /\ Ev.op = "export" /\ TExport
        \/ More /\ Ev.op = "import" /\ TImport
        \/ More /\ Ev.op = "craft" /\ TCraft
        \/ TEnd
Spec == Init /\ [][Next]_tvars
Conforms == l > 0 => (got.ok => got.named = out.key) /\ got.ok = out.ok /\ (out.path # "" /\ out.ok => got.path = out.path)
=============================================================================
