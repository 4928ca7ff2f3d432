------------------------------ MODULE Spending ------------------------------
(* What a node owns and spends: the outputs of its address, those promised to transactions on their way, and how a *)
(* payment, a request, a stake or a collateral is made of them.  Address 1 is its own.                            *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC
VARIABLES pool,    (* output -> [a: whose, v: value, lock: until, at: height of its block] *)
          kept,    (* those on disk, a part of the history before *)
          mark,    (* own output -> until when it is promised *)
          made,    (* transactions made and not mined: [ins: sequence, outs: sequence of <<address, value, lock>>] *)
          height, next, patience, res
spendVars == <<pool, kept, mark, made, height, next, patience, res>>
Big == 2147483647   (* stands for the biggest number there is *)
Sat(x, y) == IF x > Big - y THEN Big ELSE x + y
Sum(f, q) == FoldLeft(LAMBDA t, i : Sat(t, f[i]), 0, SetToSeq(q))
Total(q) == FoldLeft(LAMBDA t, x : Sat(t, x), 0, q)
SpendingInit(p) == pool = <<>> /\ kept = <<>> /\ mark = <<>> /\ made = <<>> /\ height = 0 /\ next = 1 /\ patience = p /\ res = [res |-> ""]
Own == {i \in DOMAIN pool : pool[i].a = 1}
(* what may be spent at that time, if from that height or before; no height asked is -1 *)
Free(t, limit) == {i \in DOMAIN mark : pool[i].lock <= t /\ mark[i] <= t /\ (limit = -1 \/ pool[i].at <= limit)}
(* -- making --------------------------------------------------------------------------------- *)
(* k is what is made: kind, outs, dr, stake *)
Value(k) == CASE k.kind = "vt" -> Total([i \in 1..Len(k.outs) |-> k.outs[i][2]])
              [] k.kind = "dr" -> k.dr.w * (k.dr.reward + 2 * k.dr.fee)
              [] k.kind = "st" -> k.stake
              [] OTHER -> 0
Bare(k) == CASE k.kind = "vt" -> 360 * Len(k.outs)
             [] k.kind = "dr" -> k.dr.rad + 30 + k.dr.w * (400 + 200 + 36) + 100
             [] k.kind = "st" -> 105
             [] OTHER -> 0
ChangeWeight(k) == IF k.kind \in {"dr", "st"} THEN 36 ELSE 360
(* of n inputs and with the change *)
Weight(k, n) == 133 * n + Bare(k) + ChangeWeight(k)
Fee(k, n) == IF k.rel THEN (k.fee * Weight(k, n)) \div 4 ELSE k.fee
Needs(k, n) == Sat(Value(k), Fee(k, n))
(* how much n of these, in their order, come to *)
First(ins, n) == Total([i \in 1..n |-> pool[ins[i]].v])
Enough(k, ins, n) == First(ins, n) >= Needs(k, n)
Orders(k, f, ins) ==
  /\ \A i, j \in 1..Len(ins) : i # j => ins[i] # ins[j]
  /\ \A i \in 1..Len(ins) : ins[i] \in f
  /\ k.by = "big" => /\ \A i \in 1..(Len(ins) - 1) : pool[ins[i]].v >= pool[ins[i + 1]].v
                     /\ \A x \in f \ {ins[i] : i \in 1..Len(ins)} : pool[x].v <= pool[ins[Len(ins)]].v
  /\ k.by = "small" => /\ \A i \in 1..(Len(ins) - 1) : pool[ins[i]].v <= pool[ins[i + 1]].v
                       /\ \A x \in f \ {ins[i] : i \in 1..Len(ins)} : pool[x].v >= pool[ins[Len(ins)]].v
(* no fewer of them would have done *)
Least(k, ins) == Len(ins) > 0 /\ Enough(k, ins, Len(ins)) /\ \A n \in 1..(Len(ins) - 1) : ~Enough(k, ins, n)
Sorted(k, f) == SetToSortSeq(f, LAMBDA x, y : IF k.by = "big" THEN pool[x].v > pool[y].v \/ (pool[x].v = pool[y].v /\ x < y) ELSE pool[x].v < pool[y].v \/ (pool[x].v = pool[y].v /\ x < y))
Allowed(k) == IF k.from = 0 \/ k.from = 1 THEN Free(k.t, k.limit) ELSE {}
Everything(k) == IF k.from = 0 \/ k.from = 1 THEN Sum([i \in DOMAIN mark |-> pool[i].v], DOMAIN mark) ELSE 0
(* too much for anybody: value and fee together are no number *)
Beyond(k) == Value(k) > Big - Fee(k, 1)
Change(k, ins) == First(ins, Len(ins)) - Value(k) - Fee(k, Len(ins))
Exact(k, ins) == 133 * Len(ins) + Bare(k) + (IF Change(k, ins) > 0 THEN ChangeWeight(k) ELSE 0)
(* limits on weight: what is certain to be too much, from the beginning or when the inputs are known *)
HeavyAtOnce(k) == k.kind \in {"vt", "dr"} /\ Weight(k, 1) > k.max
HeavyWith(k, ins) == k.rel /\ Weight(k, Len(ins)) > k.max
TooHeavy(k, ins) == HeavyWith(k, ins) \/ (k.kind = "st" /\ Exact(k, ins) > k.max)
Outs(k, ins) == (IF k.kind = "vt" THEN k.outs ELSE <<>>) \o (IF Change(k, ins) > 0 THEN <<<<1, Change(k, ins), 0>>>> ELSE <<>>)
(* the answer r is right *)
Right(k, r) ==
  LET f == Allowed(k) IN
  IF HeavyAtOnce(k) THEN r.res = "heavy" /\ r.weight = Weight(k, 1)
  ELSE IF Beyond(k) THEN r.res = "beyond"
  ELSE IF Needs(k, 1) = 0 THEN r.res = "zero"
  ELSE CASE r.res = "ok" -> Orders(k, f, r.ins) /\ Least(k, r.ins) /\ ~TooHeavy(k, r.ins) /\ r.outs = Outs(k, r.ins)
         [] r.res = "poor" -> /\ ~Enough(k, SetToSeq(f), Cardinality(f)) /\ r.total = Everything(k) /\ r.available = First(SetToSeq(f), Cardinality(f))
                              /\ r.available < r.needed /\ \E n \in 1..(Cardinality(f) + 1) : r.needed = Needs(k, n)
         [] r.res = "heavy" -> /\ r.weight > k.max
                               /\ LET s == Sorted(k, f)  c == Cardinality(f)  will == {n \in 1..c : Enough(k, s, n)} IN
                                  IF k.by = "any" THEN (k.rel \/ k.kind = "st") /\ Weight(k, c) > k.max
                                  ELSE IF will = {} THEN k.rel /\ Weight(k, c) > k.max
                                  ELSE TooHeavy(k, SubSeq(s, 1, CHOOSE n \in will : \A m \in will : n <= m))
         [] OTHER -> FALSE
(* the answer where the order of one's outputs is given by their values *)
Answer(k) ==
  LET f == Allowed(k)  s == Sorted(k, f)  c == Cardinality(f)  all == First(s, c)
      will == {n \in 1..c : Enough(k, s, n)}
      ins == SubSeq(s, 1, CHOOSE n \in will : \A m \in will : n <= m)
      fall == FoldLeft(LAMBDA p, i : IF all < Needs(k, p.n) THEN p ELSE [n |-> CHOOSE m \in 1..c : First(s, m) >= Needs(k, p.n) /\ (m = 1 \/ First(s, m - 1) < Needs(k, p.n))],
                       [n |-> 1], [i \in 1..(c + 1) |-> i])
  IN  CASE HeavyAtOnce(k) -> [res |-> "heavy"]
        [] ~HeavyAtOnce(k) /\ Beyond(k) -> [res |-> "beyond"]
        [] ~HeavyAtOnce(k) /\ ~Beyond(k) /\ Needs(k, 1) = 0 -> [res |-> "zero"]
        [] OTHER -> IF will = {} THEN [res |-> "poor", total |-> Everything(k), available |-> all, needed |-> Needs(k, fall.n)]
                    ELSE IF TooHeavy(k, ins) THEN [res |-> "heavy"] ELSE [res |-> "ok", ins |-> ins, outs |-> Outs(k, ins)]
Set(q) == {q[i] : i \in 1..Len(q)}
Make0(k, r) ==
  /\ res' = r
  /\ IF r.res = "ok" /\ ~k.dry
     THEN /\ mark' = [i \in DOMAIN mark |-> IF i \in Set(r.ins) THEN k.t + patience ELSE mark[i]]
          /\ made' = IF k.kind = "co" THEN made ELSE Append(made, [ins |-> r.ins, outs |-> r.outs])
     ELSE mark' = mark /\ made' = made
  /\ UNCHANGED <<pool, kept, height, next, patience>>
Make(k, r) == Right(k, r) /\ Make0(k, r)
(* would there be a collateral, and the least that witnesses must own *)
Could(k, floor) ==
  LET f == Free(k.t, k.limit)  g == Free(k.t, -1)
  IN  k.fee > 0 /\ First(SetToSeq(f), Cardinality(f)) >= k.fee /\ First(SetToSeq(g), Cardinality(g)) >= floor
(* -- blocks ---------------------------------------------------------------------------------- *)
Only(f, q) == [i \in q |-> f[i]]
Merge(f, g) == [i \in DOMAIN f \cup DOMAIN g |-> IF i \in DOMAIN g THEN g[i] ELSE f[i]]
(* those of the transactions asked for that can still be mined, one after the other *)
Mineable(ks) ==
  FoldLeft(LAMBDA p, k : IF k \in 1..Len(made) /\ Set(made[k].ins) \subseteq p.there THEN [there |-> p.there \ Set(made[k].ins), ks |-> Append(p.ks, k)] ELSE p,
           [there |-> DOMAIN pool, ks |-> <<>>], ks).ks
Mine(ks, pays) ==
  LET good == Mineable(ks)
      outs == FoldLeft(LAMBDA q, k : q \o made[k].outs, <<>>, good) \o pays
      gone == UNION {Set(made[k].ins) : k \in Set(good)}
      born == [i \in next..(next + Len(outs) - 1) |-> [a |-> outs[i - next + 1][1], v |-> outs[i - next + 1][2], lock |-> outs[i - next + 1][3], at |-> height]]
      mine == {i \in DOMAIN born : born[i].a = 1}
  IN  /\ pool' = Merge(Only(pool, DOMAIN pool \ gone), born)
      /\ mark' = Merge(Only(mark, DOMAIN mark \ gone), [i \in mine |-> 0])
      /\ height' = height + 1 /\ next' = next + Len(outs) /\ made' = made /\ kept' = kept /\ patience' = patience
      /\ res' = [res |-> "mined", n |-> Len(good)]
(* another one spends: anything that is not one's own *)
Leak(is) == LET gone == Set(is) \cap (DOMAIN pool \ Own) IN
            pool' = Only(pool, DOMAIN pool \ gone) /\ res' = [res |-> "left", n |-> Cardinality(gone)] /\ height' = height + 1 /\ UNCHANGED <<kept, mark, made, next, patience>>
Persist == kept' = pool /\ res' = [res |-> "kept"] /\ UNCHANGED <<pool, mark, made, height, next, patience>>
(* the marks are forgotten and looked for again *)
Again == mark' = [i \in Own |-> 0] /\ res' = [res |-> "again"] /\ UNCHANGED <<pool, kept, made, height, next, patience>>
(* -- balances -------------------------------------------------------------------------------- *)
Of(f, a, t, locked) == Sum([i \in DOMAIN f |-> f[i].v], {i \in DOMAIN f : f[i].a = a /\ (f[i].lock > t) = locked})
Balance(a) == [total |-> Of(pool, a, 0, TRUE) + Of(pool, a, 0, FALSE), confirmed |-> Of(kept, a, 0, TRUE) + Of(kept, a, 0, FALSE)]
(* -- what has to hold ------------------------------------------------------------------------ *)
SpendInv == DOMAIN mark = Own
=============================================================================
