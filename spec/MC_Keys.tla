------------------------------ MODULE MC_Keys ------------------------------
EXTENDS Keys, Json, TLC
CONSTANTS Seeds, Macs, Idx, MaxPath, MaxOps, Depths
VARIABLE hist
Paths == UNION {[1..n -> Idx] : n \in 0..MaxPath}
Sec == "1111111111111111111111111111111111111111111111111111111111111111"
CC  == "2222222222222222222222222222222222222222222222222222222222222222"
Crafts == [hrp : {"xprv", "xpub"}, depth : {0, 1, 2}, path : {<<>>, <<"1'">>}, extra : {-1, 0, 1, 4}, prefix : {0, 1},
           secret : {Sec}, secret_ok : {TRUE}, cc : {CC}, flip : {FALSE, TRUE}]
R(r) == hist' = Append(hist, r @@ [exp |-> out'])
Init == KInit /\ hist = <<>>
Next ==
  /\ Len(hist) < MaxOps
  /\ \/ hist = <<>> /\ \E s \in Seeds, m \in Macs : Gen("a", s, m) /\ R([op |-> "gen", r |-> "a", seed |-> s, mac |-> m])
     \/ hist = <<>> /\ \E c \in Crafts : Craft("a", c) /\ R([op |-> "craft", r |-> "a", c |-> c])
     \/ "a" \in DOMAIN regs /\ \E p \in Paths : Len(regs["a"].path \o p) <= MaxPath /\
            Derive("a", "a", p) /\ R([op |-> "derive", r |-> "a", from |-> "a", p |-> p])
     \/ "a" \in DOMAIN regs /\ Look("a") /\ \E k \in {"pub", "reload", "parts"} : R([op |-> k, r |-> "a"])
     \/ "a" \in DOMAIN regs /\ DOMAIN slips = {} /\ \E n \in Depths : LET p == [i \in 1..n |-> IF i % 2 = 0 THEN ToString(i) ELSE ToString(i) \o "'"] IN
            Export("s", "a", p) /\ R([op |-> "export", s |-> "s", r |-> "a", p |-> p])
     \/ "s" \in DOMAIN slips /\ Import("b", "s") /\ R([op |-> "import", r |-> "b", s |-> "s"])
Spec == Init /\ [][Next]_<<kVars, hist>>
View == <<regs, slips>>
Emit == PrintT("@@" \o ToJson(hist'))
\* derivation is associative, and importing undoes exporting
Assoc == \A r \in DOMAIN regs : \A p, q \in Paths :
   [regs[r] EXCEPT !.path = (@ \o p) \o q] = [regs[r] EXCEPT !.path = @ \o (p \o q)]
=============================================================================
