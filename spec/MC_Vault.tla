------------------------------ MODULE MC_Vault ------------------------------
EXTENDS Vault, Json
CONSTANTS Ks, Ivs, Pts, Pws, MaxOps
VARIABLE hist
R(r) == hist' = Append(hist, r @@ [exp |-> out'])
Init == VInit /\ hist = <<>>
Next ==
  /\ Len(hist) < MaxOps
  /\ \/ \E k \in Ks, v \in Ivs, p \in Pts : DOMAIN cts = {} /\ Encrypt("a", k, v, p) /\ R([op |-> "enc", c |-> "a", k |-> k, iv |-> v, pt |-> p])
     \/ \E c \in DOMAIN cts, k \in Ks, v \in Ivs : Decrypt(c, k, v) /\ R([op |-> "dec", c |-> c, k |-> k, iv |-> v])
     \/ \E c \in DOMAIN cts, t \in {1, 2} : DOMAIN cts = {"a"} /\ Alter("b", c, t, 0) /\ R([op |-> "alter", c |-> "b", from |-> c, t |-> t, cut |-> 0])
     \/ \E c \in DOMAIN cts, cut \in {1, 8, 16} : DOMAIN cts = {"a"} /\ Alter("b", c, 1000 + cut, cut) /\ R([op |-> "alter", c |-> "b", from |-> c, t |-> 1000 + cut, cut |-> cut])
     \/ \E p \in Pws, s \in Pws, n \in {1, 2, 10} : cts = [c \in {} |-> NoCt] /\ Stretch(p, s, n) /\ R([op |-> "stretch", pw |-> p, salt |-> s, n |-> n])
     \/ \E n \in {0, 1, 16, 32} : cts = [c \in {} |-> NoCt] /\ Random(n, 0) /\ R([op |-> "random", n |-> n, serial |-> 0])
Spec == Init /\ [][Next]_<<vVars, hist>>
View == cts
Emit == PrintT("@@" \o ToJson(hist'))
\* a plaintext only comes out for the key and iv it went in with, unaltered
NoOther == out.must /\ out.ok /\ out.pt # "" => out.ct.t = 0
=============================================================================
