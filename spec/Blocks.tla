------------------------------- MODULE Blocks -------------------------------
(***************************************************************************)
(* What a block may do to the ledger (validations/src/validations.rs,       *)
(* validate_block_transactions): transfers of value, data requests, stakes, *)
(* unstakes and the reward of the miner, in every version of the protocol.  *)
(*                                                                         *)
(* Amounts count units of 10^12 nanowits; 64 bits overflow after MAXV.      *)
(* An output is [o, v, l, b]: owner, value, time until which it is locked,  *)
(* and the number of the block its coins are dated from.                    *)
(* A transaction is a record whose input is <<id, signer, 1 if the signature*)
(* is good>>, and whose output is <<owner, value, lock>>.                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

CONSTANTS MAXV, T0, MINST, MAXST   \* the last two: bounds of a stake

VARIABLES
  cfg,    \* what does not change: activation epochs, weights, rewards
  utxo,   \* identifier -> output
  stk,    \* <<validator, withdrawer>> -> [c, n]: coins and nonce
  next,   \* outputs are numbered as they are created
  bn,     \* number of the block being built
  ok,     \* outcome of the last operation
  book    \* [minted, locked, fees]: where value came from and went to, for conservation

vars == <<cfg, utxo, stk, next, bn, ok, book>>

Ver(ep) == IF ep >= cfg.a21 THEN 21 ELSE IF ep >= cfg.a20 THEN 20 ELSE IF ep >= cfg.a18 THEN 18 ELSE 17
Time(ep) == T0 + IF ep >= cfg.a20 THEN 45 * cfg.a20 + 20 * (ep - cfg.a20) ELSE 45 * ep
Reward(ep) == cfg.reward \div 2^(ep \div cfg.halv)
MinStake(ep) == IF Ver(ep) >= 18 THEN MINST ELSE 0
MaxStake(ep) == IF Ver(ep) >= 18 THEN MAXST ELSE 0
StakeWeight == IF cfg.main = 1 THEN 20000 ELSE 10000000
UnstakeDelay == IF cfg.main = 1 THEN 1209600 ELSE 3600

Sum(s) == FoldLeft(LAMBDA a, x : a + x, 0, s)
Values(outs) == [i \in 1..Len(outs) |-> outs[i][2]]
Total(outs) == Sum(Values(outs))
InIds(ins) == [i \in 1..Len(ins) |-> ins[i][1]]
InTotal(u, ins) == Sum([i \in 1..Len(ins) |-> u[ins[i][1]].v])

(* Inputs exist, are unlocked, are used once, and are signed for by their owners. *)
Available(u, ins, ep) ==
  /\ \A i \in 1..Len(ins) : ins[i][1] \in DOMAIN u /\ u[ins[i][1]].l <= Time(ep)
  /\ Cardinality(ToSet(InIds(ins))) = Len(ins)
Signed(u, t) == t.xs = 0 /\ \A i \in 1..Len(t.ins) : t.ins[i][2] = u[t.ins[i][1]].o /\ t.ins[i][3] = 1
Pays(u, t, ep, out) ==
  /\ t.ins # <<>>
  /\ Available(u, t.ins, ep)
  /\ Signed(u, t)
  /\ InTotal(u, t.ins) <= MAXV
  /\ out <= MAXV
  /\ out <= InTotal(u, t.ins)

Vt(ep, u, t) ==
  /\ \A i \in 1..Len(t.outs) : t.outs[i][2] > 0
  /\ 133 * Len(t.ins) + 360 * Len(t.outs) <= cfg.maxvt
  /\ Pays(u, t, ep, Total(t.outs))
VtFee(u, t) == InTotal(u, t.ins) - Total(t.outs)
VtWeight(t) == 133 * Len(t.ins) + 360 * Len(t.outs)

(* A data request locks the rewards and fees of all its witnesses. *)
DrCost(t) == t.w * (t.r + 2 * t.f)
DrCostOk(t) == t.r + 2 * t.f <= MAXV /\ (t.r + 2 * t.f = 0 \/ t.w <= MAXV \div (t.r + 2 * t.f))
DrWeight(t) == cfg.drw + t.w * (400 + 200 + 36) + 100 + 133 * Len(t.ins) + 36 * Len(t.outs)
DrCollateral(t) == IF t.c = 0 THEN cfg.cmin ELSE t.c
Dr(ep, u, t) ==
  /\ DrWeight(t) <= cfg.maxdr
  /\ t.w >= 1 /\ t.r >= 1 /\ t.q \in 51..99
  /\ DrCostOk(t)
  /\ Len(t.outs) <= 1
  /\ Pays(u, t, ep, Total(t.outs) + DrCost(t))
  /\ \A i \in 1..Len(t.outs) : t.outs[i][2] > 0 /\ t.outs[i][1] = u[t.ins[1][1]].o
  /\ DrCollateral(t) >= cfg.cmin
  /\ DrCollateral(t) <= 125 * t.r
DrFee(u, t) == InTotal(u, t.ins) - Total(t.outs) - DrCost(t)
(* Too many witnesses: it has to be resolved in the same block, which is   *)
(* the business of Rounds.tla.                                              *)
TooMany(ep, t) == Ver(ep) >= 20 /\ t.w > Cardinality({k[1] : k \in DOMAIN stk}) \div (IF cfg.main = 1 THEN 4 ELSE 2)

(* Staking: authorized by the validator, within limits, by one withdrawer. *)
St(ep, u, t) ==
  LET k == <<t.v, t.wd>>  had == IF k \in DOMAIN stk THEN stk[k].c ELSE 0 IN
  /\ Ver(ep) >= 18
  /\ t.val >= MinStake(ep) /\ had + t.val <= MaxStake(ep)
  /\ \A j \in DOMAIN stk : j[1] = t.v => j[2] = t.wd
  /\ t.auth = 1
  /\ Pays(u, t, ep, t.val + Total(t.chg))
StFee(u, t) == InTotal(u, t.ins) - Total(t.chg) - t.val
StWeight(t) == 133 * Len(t.ins) + 36 * Len(t.chg) + 105

(* Unstaking: by the withdrawer, to itself, once, leaving nothing or a     *)
(* stake, and not to be spent before a delay.                               *)
Locked(ep, l) == IF Ver(ep) >= 20 /\ l < T0 THEN l + Time(ep) ELSE l
Ut(ep, t) ==
  LET k == <<t.v, t.k>> IN
  /\ Ver(ep) >= 20
  /\ t.val <= MAXV /\ t.val + t.fee <= MAXV
  /\ k \in DOMAIN stk
  /\ t.good = 1 /\ t.to = t.k
  /\ t.n = stk[k].n
  /\ t.val + t.fee <= stk[k].c
  /\ LET left == stk[k].c - t.val - t.fee IN
     \/ left = 0 \/ left >= MinStake(ep)
     \/ Ver(ep) >= 21 /\ t.val + t.fee = 0
  /\ Locked(ep, t.l) >= Time(ep) + UnstakeDelay

(* The outputs of a transaction keep the date of its inputs for an owner   *)
(* to whom all of them belonged.                                            *)
Dated(u, ins, o) ==
  IF ins # <<>> /\ \A i \in 1..Len(ins) : u[ins[i][1]].o = o
  THEN LET B == {u[ins[i][1]].b : i \in 1..Len(ins)} IN CHOOSE b \in B : \A c \in B : c <= b
  ELSE bn
Move(ep, s, ins, outs) ==
  LET gone == ToSet(InIds(ins))
      at(i) == [o |-> outs[i][1], v |-> outs[i][2], l |-> Locked(ep, outs[i][3]), b |-> Dated(s.u, ins, outs[i][1])]
      born == s.nx .. s.nx + Len(outs) - 1
  IN  [s EXCEPT !.u = [x \in (DOMAIN s.u \ gone) \cup born |-> IF x \in born THEN at(x - s.nx + 1) ELSE s.u[x]],
                !.nx = @ + Len(outs)]
No == [ok |-> FALSE]
(* One transaction after another: each sees what the ones before it left.  *)
Each(s, txs, valid(_, _), fee(_, _), weight(_), ins(_), outs(_), ep) ==
  FoldLeft(LAMBDA a, t : IF ~a.ok \/ ~valid(a.u, t) THEN No
                         ELSE [Move(ep, a, ins(t), outs(t)) EXCEPT !.fee = @ + fee(a.u, t), !.w = @ + weight(t)],
           s, txs)
Under(s, max) == IF s.ok /\ s.w > max THEN No ELSE IF s.ok THEN [s EXCEPT !.w = 0] ELSE No
Differ(txs) == \A i, j \in 1..Len(txs) : txs[i].v = txs[j].v => i = j

Ledger == [ok |-> TRUE, u |-> utxo, nx |-> next, fee |-> 0, w |-> 0]
Run(b) ==
  LET ep == b.ep
      INS(t) == t.ins  OUTS(t) == t.outs
      s1 == Under(Each(Ledger, b.vts, LAMBDA u, t : Vt(ep, u, t), VtFee, VtWeight, INS, OUTS, ep), cfg.maxvt)
      s2 == Under(Each(s1, b.drs, LAMBDA u, t : Dr(ep, u, t) /\ ~TooMany(ep, t), DrFee, DrWeight, INS, OUTS, ep), cfg.maxdr)
      s3 == Under(Each(s2, b.sts, LAMBDA u, t : St(ep, u, t), StFee, StWeight, INS, LAMBDA t : t.chg, ep), StakeWeight)
      s4 == Under(Each(s3, b.uts, LAMBDA u, t : Ut(ep, t), LAMBDA u, t : t.fee, LAMBDA t : 153, LAMBDA t : <<>>,
                       LAMBDA t : <<<<t.to, t.val, t.l>>>>, ep), 5000)
  IN  s4

(* Before the second version the miner takes exactly the fees and the      *)
(* reward; since then they are added to its stake, and it mints nothing.    *)
MintOk(b, fees) ==
  /\ b.mint.ep = b.ep
  /\ IF Ver(b.ep) >= 20 THEN b.mint.outs = <<>>
     ELSE /\ Len(b.mint.outs) <= 2
          /\ \A i \in 1..Len(b.mint.outs) : b.mint.outs[i][2] > 0
          /\ Total(b.mint.outs) = fees + Reward(b.ep)
BlockOk(b) ==
  LET s == Run(b) IN s.ok /\ Differ(b.sts) /\ Differ(b.uts) /\ MintOk(b, s.fee) /\ b.root = 0

Staked(b) ==
  LET add(m, t) == LET k == <<t.v, t.wd>>  c == IF k \in DOMAIN m THEN m[k].c ELSE 0
                   IN  [j \in DOMAIN m \cup {k} |-> IF j = k THEN [c |-> c + t.val, n |-> b.ep] ELSE m[j]]
      rem(m, t) == LET k == <<t.v, t.to>>  c == m[k].c - t.val - t.fee
                   IN  IF c = 0 THEN [j \in DOMAIN m \ {k} |-> m[j]] ELSE [m EXCEPT ![k] = [c |-> c, n |-> b.ep]]
  IN  FoldLeft(rem, FoldLeft(add, stk, b.sts), b.uts)

(* Node: no block, no effect. *)
Block(b) ==
  IF ~BlockOk(b) THEN ok' = FALSE /\ UNCHANGED <<cfg, utxo, stk, next, bn, book>>
  ELSE LET s == Run(b)  f == Move(b.ep, s, <<>>, b.mint.outs) IN
       /\ ok' = TRUE /\ utxo' = f.u /\ next' = f.nx /\ bn' = bn + 1 /\ stk' = Staked(b)
       /\ book' = [minted |-> book.minted + (IF Ver(b.ep) >= 20 THEN 0 ELSE Reward(b.ep)),
                   locked |-> book.locked + Sum([i \in 1..Len(b.drs) |-> DrCost(b.drs[i])]),
                   fees |-> book.fees + (IF Ver(b.ep) >= 20 THEN s.fee ELSE 0)]
       /\ UNCHANGED cfg

(* The first block creates value out of nothing, leaving room for all the  *)
(* rewards to come.                                                         *)
GenesisRoom == MAXV - 2 * cfg.halv * cfg.reward
GenesisOk(b) ==
  /\ \A i \in 1..Len(b.vts) :
       LET t == b.vts[i] IN t.ins = <<>> /\ t.xs = 0 /\ t.outs # <<>> /\ \A j \in 1..Len(t.outs) : t.outs[j][2] > 0
  /\ FoldLeft(LAMBDA a, t : IF a < 0 THEN a ELSE a - Total(t.outs), GenesisRoom, b.vts) >= 0
  /\ b.root = 0
Genesis(b) ==
  IF ~GenesisOk(b) THEN ok' = FALSE /\ UNCHANGED <<cfg, utxo, stk, next, bn, book>>
  ELSE LET f == FoldLeft(LAMBDA a, t : Move(b.ep, a, <<>>, t.outs), Ledger, b.vts) IN
       /\ ok' = TRUE /\ utxo' = f.u /\ next' = f.nx /\ bn' = bn + 1
       /\ book' = [book EXCEPT !.minted = @ + Sum([i \in 1..Len(b.vts) |-> Total(b.vts[i].outs)])]
       /\ UNCHANGED <<cfg, stk>>

(* A transaction on its own is taken when a block could hold it. *)
Pooled(ep, kind, t) ==
  /\ ok' = CASE kind = "vt" -> Vt(ep, utxo, t)
             [] kind = "dr" -> Dr(ep, utxo, t)
             [] kind = "st" -> St(ep, utxo, t)
             [] kind = "ut" -> Ut(ep, t)
  /\ UNCHANGED <<cfg, utxo, stk, next, bn, book>>

Sorted(S) == SetToSortSeq(S, LAMBDA a, b : a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2]))
Obs == [ok |-> ok,
        utxo |-> Sorted({<<k, utxo[k].o, utxo[k].v, utxo[k].l, utxo[k].b>> : k \in DOMAIN utxo}),
        stakes |-> Sorted({<<k[1], k[2], stk[k].c, stk[k].n>> : k \in DOMAIN stk})]

BlocksInit(c) ==
  /\ cfg = [c EXCEPT !.utxo = <<>>]
  /\ utxo = [i \in 1..Len(c.utxo) |-> [o |-> c.utxo[i][1], v |-> c.utxo[i][2], l |-> c.utxo[i][3], b |-> c.utxo[i][4]]]
  /\ stk = [k \in {<<c.stakes[i][1], c.stakes[i][2]>> : i \in 1..Len(c.stakes)} |->
              LET i == CHOOSE j \in 1..Len(c.stakes) : <<c.stakes[j][1], c.stakes[j][2]>> = k
              IN  [c |-> c.stakes[i][3], n |-> c.stakes[i][4]]]
  /\ next = Len(c.utxo) + 1
  /\ bn = c.bn
  /\ ok = TRUE
  /\ book = [minted |-> Total([i \in 1..Len(c.utxo) |-> <<0, c.utxo[i][2]>>]) + Sum([i \in 1..Len(c.stakes) |-> c.stakes[i][3]]),
             locked |-> 0, fees |-> 0]

(* Conservation: coins are in outputs or stakes, locked in data requests,  *)
(* or owed to miners; none appear but the rewards, none disappear.          *)
RECURSIVE SumOf(_, _)
SumOf(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN f[x] + SumOf(f, S \ {x})
Supply == SumOf([k \in DOMAIN utxo |-> utxo[k].v], DOMAIN utxo) + SumOf([k \in DOMAIN stk |-> stk[k].c], DOMAIN stk)
Conserved == Supply + book.locked + book.fees = book.minted
StakesValid == \A k \in DOMAIN stk : stk[k].c >= MINST /\ \A j \in DOMAIN stk : j[1] = k[1] => j = k
=============================================================================
