---------------------------- MODULE MC_Protected ----------------------------
EXTENDS Protected, Json, TLC
CONSTANTS Secrets, Hows, MaxOps
VARIABLE hist
R(r) == hist' = Append(hist, r @@ [exp |-> out'])
Init == PInit /\ hist = <<>>
Names == {"a", "b"}
Next ==
  /\ Len(hist) < MaxOps
  /\ \/ \E r \in Names, k \in {"bytes", "str"}, h \in Hows, v \in Secrets : New(r, k, h, v) /\ R([op |-> "new", r |-> r, kind |-> k, how |-> h, v |-> v])
     \/ \E r \in DOMAIN regs, q \in Names : Clone(q, r) /\ R([op |-> "clone", r |-> q, from |-> r])
     \/ \E r \in DOMAIN regs : ToBytes(r) /\ R([op |-> "tobytes", r |-> r])
     \/ \E r \in DOMAIN regs : Reload(r) /\ R([op |-> "reload", r |-> r])
     \/ \E r \in DOMAIN regs : regs[r].kind = "bytes" /\ LET v == SubSeq("~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~", 1, Len(regs[r].v))
                                IN Wipe(r, v) /\ R([op |-> "overwrite", r |-> r, v |-> v])
     \/ \E r \in DOMAIN regs : Drop(r) /\ R([op |-> "drop", r |-> r])
     \/ \E r, q \in DOMAIN regs : regs[r].kind = regs[q].kind /\ Compare(r, q) /\ R([op |-> "cmp", r |-> r, q |-> q])
Spec == Init /\ [][Next]_<<pVars, hist>>
View == regs
Emit == PrintT("@@" \o ToJson(hist'))
NeverShown == out.dbg \in {"", "Protected(***)", "ProtectedString(***)"} /\ out.freed = 0
=============================================================================
