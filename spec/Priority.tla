------------------------------- MODULE Priority -------------------------------
(* What a node advises to pay: from the least that got into each of the last   *)
(* blocks, how much it takes to get into one within five spans of time.        *)
(* Priorities (fee by weight) are kept in fiftieths.                           *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Kinds == {"dr", "vt", "st", "ut"}
Least(S) == CHOOSE m \in S : \A y \in S : m <= y
Most(S) == CHOOSE m \in S : \A y \in S : y <= m
Minutes == <<360, 60, 15, 5, 1>>
Floors == <<5, 10, 15, 20, 25>>
Enough == 20
Fresh(cap) == [cap |-> cap, q |-> <<>>, res |-> [r |-> "ok"]]

(* ------------------------------------------------------------- a block is seen *)
Rates(txs, k) == [i \in {j \in 1..Len(txs) : txs[j].k = k} |-> (50 * txs[i].fee) \div txs[i].w]
Digest(txs, k) == LET r == Rates(txs, k)
                      S == {r[i] : i \in DOMAIN r} IN
                  [hi |-> Most(S \cup {0}), lo |-> IF S \subseteq {0} THEN -1 ELSE Least(S)]
Seen(txs) == [k \in Kinds |-> Digest(txs, k)]
(* newest first, as many as it can hold *)
Push(x, s) == [x EXCEPT !.q = SubSeq(<<s>> \o @, 1, IF Len(@) < x.cap THEN Len(@) + 1 ELSE x.cap)]

(* ------------------------------------------------------------- how much to pay *)
Value(s, k) == IF s[k].lo = -1 THEN s[k].hi ELSE s[k].lo
Lows(x, k) == [i \in 1..Len(x.q) |-> Value(x.q[i], k)]
Low(x, k) == Least({Lows(x, k)[i] : i \in 1..Len(x.q)})
High(x, k) == Most({Lows(x, k)[i] : i \in 1..Len(x.q)})
(* the range is cut into fifty; where each block is, to the nearest *)
Bucket(x, k, v) == LET d == High(x, k) - Low(x, k) IN IF d = 0 THEN 0 ELSE (100 * (v - Low(x, k)) + d) \div (2 * d)
(* each block counts where it is and a tenth below *)
From(b) == (b * 90) \div 100
BucketsOf(x, k) == LET lo == Low(x, k)
                       d == High(x, k) - lo
                       v == Lows(x, k) IN
                   [i \in 1..Len(x.q) |-> IF d = 0 THEN 0 ELSE (100 * (v[i] - lo) + d) \div (2 * d)]
RECURSIVE Sum(_, _)
Sum(F(_), n) == IF n = 0 THEN 0 ELSE F(n) + Sum(F, n - 1)
Estimate(x, k, secs) ==
  LET bs == BucketsOf(x, k)
      d == High(x, k) - Low(x, k)
      count == Len(x.q)
      F(i) == bs[i] - From(bs[i]) + 1
      n == Sum(F, count)
      times == [b \in 0..50 |-> Cardinality({i \in 1..count : From(bs[i]) <= b /\ b <= bs[i]})]
      (* how often a bucket has to be met; where it is a whole number, one more is as good *)
      need(m) == (m * 60 * n + secs * count - 1) \div (secs * count)
      needs(m) == {need(m)} \cup (IF (m * 60 * n) % (secs * count) = 0 THEN {need(m) + 1} ELSE {})
      best(c) == LET S == {b \in 0..50 : times[b] > 0 /\ times[b] >= c} IN IF S = {} THEN 0 ELSE Most(S)
      paid(c, fl) == LET p == Low(x, k) + (best(c) * d) \div 50 IN IF p < fl THEN fl ELSE p
  IN [t \in 1..5 |-> {paid(c, Floors[t]) : c \in needs(Minutes[t])}]
Advice(x, secs) == [k \in Kinds |-> Estimate(x, k, secs)]
Few(x, secs) == [r |-> "few", current |-> Len(x.q), required |-> Enough, wait |-> ((Enough - Len(x.q)) * secs) \div 60 + 1]

(* ------------------------------------------------------------- the rules *)
(* paying more never takes longer, nobody is told to pay more than any block took, or less than the least *)
Sensible(x, secs) == \A k \in {y \in Kinds : \E i \in 1..Len(x.q) : x.q[i][y].hi > 0} : LET e == Estimate(x, k, secs) IN
   /\ \A t \in 1..4 : Least(e[t]) <= Least(e[t + 1])
   /\ \A t \in 1..5 : \A p \in e[t] : p >= Floors[t] /\ p >= Low(x, k) /\ (p <= High(x, k) \/ p = Floors[t])
PriorityInv(x) == Len(x.q) <= x.cap /\ \A i \in 1..Len(x.q) : \A k \in Kinds : LET s == x.q[i][k] IN (s.lo = -1 => s.hi = 0) /\ s.lo <= s.hi
=============================================================================
