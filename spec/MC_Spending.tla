----------------------------- MODULE MC_Spending -----------------------------
EXTENDS Spending, Json
CONSTANTS Amounts, Fees, MaxOps
VARIABLES now, hist
Genesis == <<<<1, 600, 0>>, <<1, 800, 0>>, <<1, 1000, 11>>, <<2, 900, 0>>, <<1, 700, 0>>>>
Exp == [own |-> LET q == SetToSortSeq(DOMAIN mark', <) IN [i \in 1..Len(q) |-> <<q[i], mark'[q[i]]>>]]
H(r, e) == hist' = Append(hist, r @@ [exp |-> e @@ Exp])
K(kind, v, rel, fee, by, max) ==
  [op |-> "make", kind |-> kind, outs |-> <<<<2, v, 0>>>>, stake |-> v, dr |-> [w |-> 1, reward |-> v, fee |-> 0, rad |-> 16], rel |-> rel, fee |-> fee, by |-> by,
   from |-> 0, t |-> now, limit |-> IF kind = "co" THEN 0 ELSE -1, max |-> max, dry |-> FALSE]
Init == /\ kept = <<>> /\ made = <<>> /\ patience = 2 /\ height = 1 /\ next = 6 /\ res = [res |-> ""] /\ now = 10
        /\ pool = [i \in 1..5 |-> [a |-> Genesis[i][1], v |-> Genesis[i][2], lock |-> Genesis[i][3], at |-> 0]]
        /\ mark = [i \in {1, 2, 3, 5} |-> 0]
        /\ hist = <<[op |-> "cfg", unit |-> 1, patience |-> 2, cached |-> TRUE], [op |-> "mine", ks |-> <<>>, pays |-> Genesis]>>
(* no two of one's own are worth the same, else the order is not given *)
Told == \A i, j \in DOMAIN mark : i # j => pool[i].v # pool[j].v
Makes == {K(x, v, FALSE, fee, by, 20000) : x \in {"vt", "st"}, v \in Amounts, fee \in Fees, by \in {"big", "small"}}
         \cup {K(x, v, TRUE, 1, by, m) : x \in {"vt", "st"}, v \in Amounts, by \in {"big", "small"}, m \in {700, 980}}
         \cup {K("st", v, FALSE, 0, "big", m) : v \in Amounts, m \in {300, 400}}
         \cup {K("co", 0, FALSE, v, "small", Big) : v \in Amounts}
Next == /\ Len(hist) <= MaxOps + 1
        /\ \/ Told /\ \E k \in Makes : \E r \in {Answer(k)} : Assert(r.res = "heavy" \/ Right(k, r), k) /\ Make0(k, r) /\ now' = now /\ H(k, r)
           \/ \E k \in 1..Len(made) : Mine(<<k>>, <<>>) /\ now' = now /\ H([op |-> "mine", ks |-> <<k>>, pays |-> <<>>], [n |-> Cardinality(Set(Mineable(<<k>>)))])
           \/ now < 13 /\ now' = now + 1 /\ UNCHANGED spendVars /\ hist' = hist
Spec == Init /\ [][Next]_<<spendVars, now, hist>>
View == <<pool, mark, made, now>>
(* money is neither made nor lost by making: what is in comes out, to others, back or as the fee *)
Kept == \A i \in 1..Len(made) : Len(made[i].outs) <= 2 /\ \A j \in 1..Len(made[i].outs) : made[i].outs[j][2] > 0 \/ made[i].outs[j][1] = 2
(* two transactions on their way spend the same only if the first was given up *)
Promised == [][\A i \in DOMAIN mark : i \in DOMAIN mark' /\ mark'[i] # mark[i] => mark[i] <= now \/ mark'[i] = 0]_<<spendVars, now, hist>>
Emit == hist' = hist \/ PrintT("@@" \o ToJson(hist'))
=============================================================================
