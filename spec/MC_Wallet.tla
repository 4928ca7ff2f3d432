----------------------------- MODULE MC_Wallet -----------------------------
(* A wallet with one address of each kind, and what one to three more things that happen to it do. *)
EXTENDS Wallet, Json
CONSTANTS Starts, MaxOps, Unc, Patience
VARIABLES hist
Far == 2147483647
P == 2
Bare(m) == Without(m, {"id"})
Exp == LET nl == Cardinality(DOMAIN w.locals)  q == Listed(P) IN
  [local |-> w.local, unc |-> w.unc, conf |-> w.conf, utxo |-> UtxoView, sync |-> w.sync, last |-> w.last, total |-> w.next + nl,
   locals |-> {Bare(w.locals[t]) : t \in DOMAIN w.locals}, rest |-> [i \in 1..Len(q) |-> Bare(q[i])],
   ext |-> [n |-> w.ne, list |-> Addresses("E", w.ne)], int |-> [n |-> w.ni, list |-> Addresses("I", w.ni)]]
H(r) == \E e \in {IF dirty' THEN res' ELSE Exp' @@ res'} : hist' = Append(hist, r @@ [exp |-> e])
N == Len(hist)
Tx(t, k, ins, outs, meta) == [t |-> t, k |-> k, n |-> N, ins |-> ins, outs |-> outs, meta |-> meta]
Nth(c) == Name(c, N)
V(p) == w.utxo[p][2]
(* what can come in a block *)
Pay == Tx(Nth("p"), "vt", <<<<Nth("x"), 0>>>>, <<<<"E0", 20 + N, 0>>, <<"F1", 2, 0>>>>, <<90>>)
Lock == Tx(Nth("l"), "mint", <<>>, <<<<"I0", 40 + N, Far>>>>, <<>>)
SpendIt(p, v) == Tx(Nth("q"), "vt", <<p>>, <<<<"F1", 3, N>>, <<"I0", v - 4, 0>>>>, <<v>>)
StakeIt(p, v) == Tx(Nth("s"), "stake", <<p>>, <<>>, <<v>>) @@ [stk |-> <<"F1", "E0", v - 1>>]
Back == Tx(Nth("u"), "unstake", <<>>, <<<<"E0", 3, 500>>>>, <<>>) @@ [stk |-> <<"F1", "E0", 1>>]
Ask(p, v) == Tx(Nth("d"), "dr", <<p>>, <<<<"E0", v - 10, 0>>>>, <<v>>)
Answer(x) == Tx(Nth("a"), "tally", <<>>, <<<<"E0", 1, N>>>>, <<>>) @@ [dr |-> x, res |-> 3, rev |-> <<<<"F1", 3>>, <<"F2", 4>>>>, liars |-> <<"F2", "F3">>]
Coins0 == {p \in DOMAIN w.utxo : w.utxo[p][3] < Far /\ V(p) > 10}
(* after all was forgotten, the chain comes again from its beginning: the request first *)
Asks == DOMAIN w.pdr \cup {y \in DOMAIN d.idx : d.idx[y] < d.next /\ d.mov[d.idx[y]].t = y /\ d.mov[d.idx[y]].k = "dr"}
Ones == {Pay, Lock, Back} \cup {SpendIt(p, V(p)) : p \in Coins0} \cup {StakeIt(p, V(p)) : p \in Coins0} \cup {Ask(p, V(p)) : p \in Coins0} \cup {Answer(x) : x \in Asks}
Blocks == {<<x>> : x \in Ones} \cup {<<Pay, SpendIt(<<Nth("p"), 0>>, 20 + N)>>} \cup {<<[made |-> t]>> : t \in DOMAIN made \ (w.ptx \cup DOMAIN d.idx)}
Sends == {[op |-> "send", k |-> k, t |-> Nth("m"), n |-> N, outs |-> IF k = "vt" THEN <<<<"F1", v, N>>>> ELSE <<>>, by |-> "big", sel |-> <<>>, fee |-> 1, preview |-> FALSE, reward |-> v, from |-> ""] : k \in {"vt"}, v \in {4, 60}}
(* the biggest first, as many as it takes *)
Pick(k) ==
  LET q == SetToSortSeq(Spendable(k), LAMBDA x, y : w.utxo[x][2] > w.utxo[y][2])
      n == CHOOSE i \in 1..Len(q) : Worth(SubSeq(q, 1, i)) >= Asked(k) + k.fee /\ \A j \in 1..(i - 1) : Worth(SubSeq(q, 1, j)) < Asked(k) + k.fee
  IN  IF Poor(k) THEN <<>> ELSE SubSeq(q, 1, n)
Told == \A p, q \in DOMAIN w.utxo : p # q => V(p) # V(q)
Start(k) ==
  LET g0 == GenI(GenE([w |-> Open(Disk0), d |-> Disk0], ""), "")
      t1 == [t |-> "g1", k |-> "vt", n |-> 0, ins |-> <<<<"x0", 0>>>>, outs |-> <<<<"E0", 15, 0>>, <<"I0", 35, 0>>>>, meta |-> <<77>>]
      t2 == [t |-> "g2", k |-> "dr", n |-> 0, ins |-> <<<<"g1", 1>>>>, outs |-> <<<<"I0", 30, 0>>>>, meta |-> <<35>>]
      t3 == [t |-> "g3", k |-> "stake", n |-> 0, ins |-> <<<<"x9", 0>>>>, outs |-> <<<<"E0", 2, 0>>>>, meta |-> <<13>>, stk |-> <<"F1", "E0", 10>>]
      ops == CASE k = 0 -> <<>> [] k = 1 -> <<<<TRUE, <<t1>>>>, <<TRUE, <<t2, t3>>>>>> [] k = 2 -> <<<<TRUE, <<t1>>>>, <<FALSE, <<t2, t3>>>>>> [] k = 3 -> <<<<FALSE, <<t1, t3>>>>, <<FALSE, <<t2>>>>>>
  IN  [s |-> FoldLeft(LAMBDA a, i : Indexed(a, ops[i][2], Name("g", i), i, ops[i][1]).s, g0, [i \in 1..Len(ops) |-> i]),
       h |-> <<[op |-> "cfg", v2 |-> TRUE, batch |-> 2, unc |-> Unc, patience |-> Patience, page |-> P],
               [op |-> "address", kind |-> "E", label |-> "", fail |-> 0], [op |-> "address", kind |-> "I", label |-> "", fail |-> 0]>>
             \o [i \in 1..Len(ops) |-> [op |-> "block", b |-> Name("g", i), ep |-> i, sure |-> ops[i][1], txs |-> ops[i][2], fail |-> 0]]]
Init == /\ made = <<>> /\ dirty = FALSE /\ res = [none |-> TRUE] /\ conf = [v2 |-> TRUE, batch |-> 2, unc |-> Unc, patience |-> Patience, page |-> P]
        /\ \E k \in Starts : \E x \in {Start(k)} : w = x.s.w /\ d = x.s.d /\ hist = x.h
Bs == [i \in 1..Len(w.pend) |-> w.pend[i].b]
Next == /\ ~dirty /\ N < MaxOps
        /\ \/ \E xs \in Blocks, sure \in BOOLEAN : (sure => w.pend = <<>>) /\ Block(Nth("b"), N, sure, xs, 0) /\ H([op |-> "block", b |-> Nth("b"), ep |-> N, sure |-> sure, txs |-> xs, fail |-> 0])
           \/ \E n \in 1..Len(w.pend) : Super(SubSeq(Bs, 1, n), 0) /\ H([op |-> "super", bs |-> SubSeq(Bs, 1, n), fail |-> 0])
           \/ w.pend # <<>> /\ Super(Bs, Len(w.pend)) /\ H([op |-> "super", bs |-> Bs, fail |-> Len(w.pend)])
           \/ Orphan /\ H([op |-> "orphan"])
           \/ Restart /\ H([op |-> "restart"])
           \/ Wipe(0) /\ H([op |-> "wipe", fail |-> 0])
           \/ Told /\ \E k \in Sends : Assert(Poor(k) \/ Fit(k, Pick(k)), k) /\ Send(k, Pick(k)) /\ H(k)
           \/ \E t \in DOMAIN made : Local([made |-> t]) /\ H([op |-> "local", tx |-> [made |-> t]])
           \/ \E p \in Coins0 : \E x \in {SpendIt(p, V(p)), Ask(p, V(p))} : Local(x) /\ H([op |-> "local", tx |-> x])
Spec == Init /\ [][Next]_<<walletVars, hist>>
View == <<w, d, made, dirty>>
Emit == hist' = hist \/ PrintT("@@" \o ToJson(hist'))
=============================================================================
