---------------------------- MODULE MC_RepEngine ----------------------------
EXTENDS RepEngine, Json
CONSTANTS People, Miners, Caps, Diffs, Skips, MaxOps
VARIABLES hist
K == [iss |-> 7, stop |-> 5, life |-> 2, pow |-> 1]
Perms == {f \in [1..Cardinality(People) -> People] : Elems(f) = People}
\* of those with the same reputation any may come first, as the hashes say
Said(best) ==
  LET list == Ordered(best)  tr == Trapezoid(list, {})  ws == Weights(list, tr)
  IN  [list |-> list, elig |-> {<<Reputed(list)[i], tr[i]>> : i \in 1..Len(tr)}, total |-> SumSeq(ws),
       factors |-> [n \in 1..5 |-> Factor(n - 1, SumSeq(ws), SumSeq(ws), ws)]]
Shown == [alpha |-> alpha, extra |-> extra, bal |-> {<<id, Rep(queue, id)>> : id \in Ids(queue)}, keys |-> keys]
H(r) == hist' = Append(hist, r @@ [exp |-> Shown'])
Outcomes == {<<1, 0, 0>>, <<0, 1, 0>>, <<1, 1, 0>>, <<1, 0, 1>>, <<0, 0, 2>>}
Row(f) == LET s == SetToSeq(DOMAIN f) IN [i \in 1..Len(s) |-> [id |-> s[i], t |-> f[s[i]][1], e |-> f[s[i]][2], l |-> f[s[i]][3]]]
Init == \E c \in Caps : RepInit(c) /\ hist = <<[op |-> "cfg", cap |-> c, k |-> K]>>
Next == \/ /\ Len(hist) <= MaxOps
           /\ \/ \E m \in Miners, S \in SUBSET People, d \in Diffs, ep \in {last + n : n \in Skips} :
                   \E f \in [S -> Outcomes] :
                     /\ Block(K, m, Row(f), d, ep) /\ BlockExact(K, d)
                     /\ H([op |-> "block", miner |-> m, own |-> 1, rs |-> Row(f), diff |-> d, ep |-> ep])
              \/ \E id \in People : id \notin keys /\ Key(id) /\ H([op |-> "key", id |-> id])
        \/ /\ Len(hist) > 1 /\ hist[Len(hist)].op # "ask" /\ Halves(Ordered(CHOOSE b \in Perms : TRUE)) = {}
           /\ Same /\ hist' = Append(hist, [op |-> "ask", first |-> 0, ns |-> <<0, 1, 2, 3, 4>>, qs |-> <<>>, ms |-> <<>>, exp |-> [any |-> {Said(b) : b \in Perms}]])
Spec == Init /\ [][Next]_<<repVars, hist>>
View == <<queue, cap, rows, last, alpha, extra, keys>>
Inv == \A b \in Perms : RepInv(b)
Emit == PrintT("@@" \o ToJson(hist'))
=============================================================================
