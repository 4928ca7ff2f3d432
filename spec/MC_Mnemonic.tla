---------------------------- MODULE MC_Mnemonic ----------------------------
(* Every combination of length, unknown word, checksum and passphrase; the   *)
(* checker turns each into concrete words.                                  *)
EXTENDS Mnemonic, Json, TLC
CONSTANTS Counts, Passes, Variants
VARIABLE hist
R(r) == hist' = Append(hist, r @@ [exp |-> out'])
Init == MnInit /\ hist = <<>>
Next == hist = <<>> /\
  \/ \E n \in Counts, k, s \in BOOLEAN, p \in Passes, v \in Variants :
       Seed("phrase", n, k, s, p) /\ R([op |-> "seed", phrase |-> "", n |-> n, known |-> k, sum |-> s, pass |-> p, v |-> v])
  \/ \E n \in Lengths : Generate(n, "phrase", <<"piece">>) /\ R([op |-> "generate", n |-> n])
Spec == Init /\ [][Next]_<<mnVars, hist>>
Emit == PrintT("@@" \o ToJson(hist'))
AcceptedIsWellFormed == out.ok => out.n \in Lengths \cup {0}
=============================================================================
