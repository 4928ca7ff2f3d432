----------------------------- MODULE MC_Merkle -----------------------------
EXTENDS Merkle, Json, TLC, SequencesExt
CONSTANTS MaxDistinct, MaxWord, MaxForge
VARIABLE hist
Name(i) == "x" \o ToString(i)
Distinct(n) == [i \in 1..n |-> Name(i)]
Words == UNION {[1..n -> {"x1", "x2"}] : n \in 0..MaxWord}
Paths == UNION {[1..n -> [bit : {0, 1}, h : {"x1", "x2"}]] : n \in 0..MaxForge}
R(r) == hist' = Append(hist, r @@ [exp |-> out'])
Init == MInit /\ hist = <<>>
First == /\ hist = <<>>
         /\ \/ \E n \in 0..MaxDistinct : Build(Distinct(n)) /\ R([op |-> "build", s |-> Distinct(n)])
            \/ \E w \in Words : Build(w) /\ R([op |-> "build", s |-> w])
            \/ \E p \in Paths, e \in {"x1", "x2"} : \E r \in {Climb(p, e), "x1", "empty"} :
                 Forge(p, e, r) /\ R([op |-> "forge", path |-> p, e |-> e, r |-> r])
Second == /\ Len(hist) = 1 /\ hist[1].op = "build"
          /\ \/ Push(Name(Len(leaves) + 1)) /\ R([op |-> "push", x |-> Name(Len(leaves) + 1)])
             \/ \E i \in 0..Len(leaves) : Proof(i) /\ R([op |-> "proof", i |-> i])
Next == First \/ Second
Spec == Init /\ [][Next]_<<mVars, hist>>
Emit == PrintT("@@" \o ToJson(hist'))
\* distinct small leaf sequences have distinct roots as long as they have the same length (see DESIGN.md)
Injective == leaves \in Words => \A w \in Words : Len(w) = Len(leaves) /\ Root(w) = Root(leaves) => w = leaves
Design == Len(hist) = 1 => MInv /\ Injective
=============================================================================
