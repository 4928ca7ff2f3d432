------------------------------ MODULE MC_TxPool ------------------------------
EXTENDS TxPool, Json, TLC, SequencesExt
CONSTANTS Ts, Cs, Rs, Limits, MaxOps
VARIABLE hist
Tx(k, ins, o, n, fee) == [k |-> k, ins |-> ins, fee |-> fee, w |-> WeightOf(k, Cardinality(ins), o, n), o |-> o, n |-> n]
Table == <<Tx("vt", {1}, 0, 0, 500), Tx("vt", {1, 2}, 0, 0, 2000), Tx("dr", {2}, 0, 1, 900), Tx("st", {1, 3}, 1, 0, 100),
           Tx("ut", {}, 0, 0, 7), Tx("vt", {3}, 1, 0, 60), Tx("dr", {3, 4}, 1, 0, 5000), Tx("st", {2}, 0, 0, 90), Tx("ut", {}, 0, 0, 1)>>
Core(t) == [k |-> t.k, ins |-> t.ins, fee |-> t.fee, w |-> t.w]
(* commits (and reveals) of three identities for two data requests; 7 is a second one of identity 1 *)
CTable == << [dr |-> 1, who |-> 1, ins |-> {11}], [dr |-> 1, who |-> 2, ins |-> {12}], [dr |-> 1, who |-> 3, ins |-> {13}],
             [dr |-> 2, who |-> 1, ins |-> {11}], [dr |-> 2, who |-> 2, ins |-> {14}], [dr |-> 3, who |-> 1, ins |-> {15, 16}],
             [dr |-> 1, who |-> 1, ins |-> {14}] >>
C(i) == [dr |-> CTable[i].dr, who |-> CTable[i].who, id |-> 100 + i, ins |-> CTable[i].ins]
R(i) == [dr |-> CTable[i].dr, who |-> CTable[i].who, id |-> 200 + i]
Order(k, f) == SetToSortSeq(Kind(f, k), LAMBDA a, b : f[a].fee * f[b].w > f[b].fee * f[a].w)
Obs == Totals @@ [vt |-> Order("vt", pool), dr |-> Order("dr", pool), st |-> Order("st", pool), ut |-> Order("ut", pool)]
H(r) == hist' = Append(hist, r @@ [exp |-> Obs' @@ [ret |-> ret']])
HX(r, x) == hist' = Append(hist, r @@ [exp |-> Obs' @@ x])
Init == TpInit /\ hist = <<>>
TxOp(o, i) == [op |-> o, id |-> i, k |-> Table[i].k, ins |-> Table[i].ins, fee |-> Table[i].fee, o |-> Table[i].o, n |-> Table[i].n, rich |-> TRUE]
Next == Len(hist) < MaxOps /\
  \/ \E i \in Ts : i \notin DOMAIN pool /\ \E e \in Evictions(With(pool, i, Core(Table[i])), lim) :
        Add(i, Core(Table[i]), TRUE, e) /\ H(TxOp("add", i))
  \/ \E i \in Ts : Table[i].k = "dr" /\ Add(50 + i, Core(Table[i]), FALSE, <<50 + i>>) /\ H([TxOp("add", i) EXCEPT !.id = 50 + i, !.rich = FALSE])
  \/ \E i \in Ts : Table[i].k = "vt" /\ Table[i].fee < minfee /\ Add(i, Core(Table[i]), TRUE, <<i>>) /\ H(TxOp("add", i))
  \/ \E i \in Ts : AddKnown(i) /\ H(TxOp("add", i))
  \/ \E i \in Ts : Mined(i, Table[i].ins) /\ H(TxOp("mined", i))
  \/ \E m \in Limits : m # lim.max /\ \E e \in Evictions(pool, [lim EXCEPT !.max = m]) :
        Limit([lim EXCEPT !.max = m], e) /\ H([op |-> "limit", max |-> m, num |-> 1, den |-> 1])
  \/ Ts # {} /\ minfee = 0 /\ SetMinFee(100) /\ H([op |-> "minfee", v |-> 100])
  \/ Ts # {} /\ \E i \in {1, 2, 3, 9} : Spent({i}) /\ H([op |-> "spent", ins |-> {i}])
  \/ \E i \in Ts : \E k \in {"st", "ut"} : Invalid(k, {i}) /\ H([op |-> "invalid", k |-> k, ids |-> {i}])
  \/ Ts # {} /\ \E k \in {"st", "ut"} : ClearKind(k) /\ H([op |-> "clearkind", k |-> k])
  \/ Clear /\ H([op |-> "clear"])
  \/ \E i \in Ts : Unconfirmed(i) /\ H(TxOp("unconfirmed", i))
  \/ Ts # {} /\ NewEpoch /\ H([op |-> "epoch"])
  \/ \E out \in {SetToSeq((cur \cup prev) \cap DOMAIN pool)} : Reorg(out) /\ HX([op |-> "reorg"], [anyorder |-> out])
  \/ (Cs # {} \/ Rs # {}) /\ drs = None /\ Dr(1, 2, 3) /\ H([op |-> "dr", dr |-> 1, n |-> 2, f |-> 3])
  \/ (Cs # {} \/ Rs # {}) /\ DOMAIN drs = {1} /\ Dr(2, 1, 10) /\ H([op |-> "dr", dr |-> 2, n |-> 1, f |-> 10])
  \/ \E i \in Cs : Commit(C(i)) /\ H(C(i) @@ [op |-> "commit"])
  \/ \E i \in Rs : Reveal(R(i)) /\ H(R(i) @@ [op |-> "reveal"])
  \/ \E i \in Rs : RevealMined(200 + i) /\ H(R(i) @@ [op |-> "revealmined"])
  \/ Rs # {} /\ \E d \in {1, 2} : Finish(d) /\ H([op |-> "finish", dr |-> d])
  \/ Cs # {} /\ ClearCommits /\ H([op |-> "clearcommits"])
  \/ Cs # {} /\ LET L == {S \in SUBSET cms : LegalBlock(S)}
                IN  \E S \in {CHOOSE S \in L : TRUE} : MineCommits(S)
                    /\ HX([op |-> "minecommits"], [legal |-> {<<{c.id : c \in X}, Fees(X)>> : X \in L}])
Spec == Init /\ [][Next]_<<tpVars, hist>>
View == <<pool, cms, rvs, drs, cur, prev, lim, minfee>>
Emit == PrintT("@@" \o ToJson(hist'))
=============================================================================
