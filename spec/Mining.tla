------------------------------- MODULE Mining -------------------------------
(***************************************************************************)
(* The block a node proposes out of its pool of transactions                *)
(* (node/src/actors/chain_manager/mining.rs, build_block).                  *)
(*                                                                         *)
(* A node takes a transaction in its pool exactly when a block of this very *)
(* epoch could hold it.  What it then proposes is a valid block, with every *)
(* tally that is due, every reveal, every round of commits that is          *)
(* complete, and the transfers and requests that pay most for their weight: *)
(* what is left out spends what is spent already or does not fit.           *)
(***************************************************************************)
EXTENDS Rounds

(* Whether the pool takes it *)
Takes(ep, kind, t, el) ==
  CASE kind = "vts" -> Vt(ep, utxo, t)
    [] kind = "drs" -> Dr(ep, utxo, t)
    [] kind = "sts" -> St(ep, utxo, t)
    [] kind = "uts" -> Ut(ep, t)
    [] kind = "cms" -> Commit(ep, utxo, t, el[1])
    [] kind = "rvs" -> Reveal(t)

Pooled_(pool, kind) == {pool[i].t : i \in {i \in 1..Len(pool) : pool[i].kind = kind}}
Ids(ins) == {ins[i][1] : i \in 1..Len(ins)}
Better(f1, w1, f2, w2) == f1 * w2 >= f2 * w1
InBlock(s, t) == \E i \in 1..Len(s) : s[i] = t
SpentBy(s) == UNION {Ids(s[i].ins) : i \in 1..Len(s)}
(* 493: one input and one output; less room than that is left empty *)
VtLeft(b, t) ==
  \/ ~Vt(b.ep, utxo, t)
  \/ Ids(t.ins) \cap SpentBy(b.cms) # {}
  \/ Sum([i \in 1..Len(b.vts) |-> VtWeight(b.vts[i])]) + Max2(VtWeight(t), 493) > cfg.maxvt
  \/ \E i \in 1..Len(b.vts) : /\ Ids(b.vts[i].ins) \cap Ids(t.ins) # {}
                              /\ Better(VtFee(utxo, b.vts[i]), VtWeight(b.vts[i]), VtFee(utxo, t), VtWeight(t))
DrLeft(b, t) ==
  \/ ~Dr(b.ep, utxo, t)
  \/ Room(b) + Sum([i \in 1..Len(b.drs) |-> DrWeight(b.drs[i])]) + DrWeight(t) > cfg.maxdr
  \/ Ids(t.ins) \cap (SpentBy(b.vts) \cup SpentBy(b.cms)) # {}
  \/ \E i \in 1..Len(b.drs) : /\ Ids(b.drs[i].ins) \cap Ids(t.ins) # {}
                              /\ Better(DrFee(utxo, b.drs[i]), DrWeight(b.drs[i]), DrFee(utxo, t), DrWeight(t))
(* Fewer commits than witnesses, or none that do not spend the same *)
CmLeft(b, pool, t) ==
  LET C == {c \in Pooled_(pool, "cms") : c.d = t.d} IN
  \/ \E i \in 1..Len(b.cms) : b.cms[i].d = t.d
  \/ Cardinality({c.k : c \in C}) < drs[t.d].p.w
  \/ \E c \in Pooled_(pool, "cms"), a \in Pooled_(pool, "cms") : c # a /\ Ids(c.ins) \cap Ids(a.ins) # {}
StLeft(b, t) ==
  \/ ~St(b.ep, utxo, t)
  \/ Ids(t.ins) \cap (SpentBy(b.vts) \cup SpentBy(b.cms) \cup SpentBy(b.drs) \cup SpentBy(b.sts)) # {}
  \/ \E i \in 1..Len(b.sts) : b.sts[i].v = t.v
  \/ Sum([i \in 1..Len(b.sts) |-> StWeight(b.sts[i])]) + StWeight(t) > StakeWeight
UtLeft(b, t) ==
  \/ ~Ut(b.ep, t)
  \/ \E i \in 1..Len(b.uts) : b.uts[i].v = t.v
  \/ 153 * (Len(b.uts) + 1) > 5000
Complete(b, pool) ==
  /\ \A t \in Pooled_(pool, "rvs") : Reveal(t) => InBlock(b.rvs, t)
  /\ \A t \in Pooled_(pool, "cms") : InBlock(b.cms, t) \/ CmLeft(b, pool, t)
  /\ \A t \in Pooled_(pool, "vts") : InBlock(b.vts, t) \/ VtLeft(b, t)
  /\ \A t \in Pooled_(pool, "drs") : InBlock(b.drs, t) \/ DrLeft(b, t)
  /\ \A t \in Pooled_(pool, "sts") : InBlock(b.sts, t) \/ StLeft(b, t)
  /\ \A t \in Pooled_(pool, "uts") : InBlock(b.uts, t) \/ UtLeft(b, t)
FromPool(b, pool) ==
  /\ \A i \in 1..Len(b.vts) : b.vts[i] \in Pooled_(pool, "vts")
  /\ \A i \in 1..Len(b.drs) : b.drs[i] \in Pooled_(pool, "drs")
  /\ \A i \in 1..Len(b.cms) : b.cms[i] \in Pooled_(pool, "cms")
  /\ \A i \in 1..Len(b.rvs) : b.rvs[i] \in Pooled_(pool, "rvs")
  /\ \A i \in 1..Len(b.sts) : b.sts[i] \in Pooled_(pool, "sts")
  /\ \A i \in 1..Len(b.uts) : b.uts[i] \in Pooled_(pool, "uts")
(* The reward goes to the miner and, in part, to an address of its choice. *)
Shared(b) ==
  LET o == b.mint.outs
      total == Total(o)
      part == IF "out" \in DOMAIN cfg THEN (total * cfg.out[2]) \div 100 ELSE 0
  IN  V2(b.ep) \/ total = 0
      \/ (part = 0 /\ o = <<<<b.miner, total, 0>>>>)
      \/ (part > 0 /\ part = total /\ o = <<<<cfg.out[1], total, 0>>>>)
      \/ (part > 0 /\ part < total /\ ToSet(o) = {<<b.miner, total - part, 0>>, <<cfg.out[1], part, 0>>} /\ Len(o) = 2)

Add(ep, kind, t, el) == ok' = Takes(ep, kind, t, el) /\ UNCHANGED <<cfg, utxo, stk, next, bn, book, drs, ndr>>
(* The block is valid whatever the pool holds; it may win or not. *)
Propose(ep, miner, take, b, pool) ==
  /\ b.ep = ep /\ b.miner = miner
  /\ RoundOk(b, [i \in 1..Len(b.cms) |-> "y"])
  /\ (FromPool(b, pool) /\ Complete(b, pool) /\ Shared(b)) = TRUE
  /\ IF take = 1 THEN Consolidate(b, [i \in 1..Len(b.cms) |-> "y"])
     ELSE ok' = TRUE /\ UNCHANGED <<cfg, utxo, stk, next, bn, book, drs, ndr>>
=============================================================================
