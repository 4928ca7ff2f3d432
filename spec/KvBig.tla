------------------------------- MODULE KvBig -------------------------------
(* The same map as Kv.tla, where keys are numbers of three bytes behind a common beginning, and there may be many of them: *)
(* nothing about a store depends on how much there is in it. A value is a kind of value, 0: none.                         *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES db, res
bigVars == <<db, res>>
BigInit == db = <<>> /\ res = [ok |-> TRUE]
In(i, lo, hi, step) == i >= lo /\ i <= hi /\ (i - lo) % step = 0
Fill(lo, hi, step, v) == db' = [i \in DOMAIN db \cup lo..hi |-> IF In(i, lo, hi, step) THEN v ELSE IF i \in DOMAIN db THEN db[i] ELSE 0] /\ res' = [ok |-> TRUE]
Get(i) == db' = db /\ res' = [val |-> IF i \in DOMAIN db THEN db[i] ELSE 0]
Width(d) == IF d <= 0 THEN 16777216 ELSE IF d = 1 THEN 65536 ELSE IF d = 2 THEN 256 ELSE 1
(* those whose first d bytes are those of i *)
Scan(d, i) ==
  LET lo == (i \div Width(d)) * Width(d)  hi == lo + Width(d) - 1
      hits == {j \in DOMAIN db : j >= lo /\ j <= hi /\ db[j] # 0}
  IN  db' = db /\ res' = [n |-> Cardinality(hits), kinds |-> [v \in 1..8 |-> Cardinality({j \in hits : db[j] = v})], low |-> Cardinality({j \in hits : j % 256 < 128}), odd |-> Cardinality({j \in hits : j % 2 = 1})]
=============================================================================
