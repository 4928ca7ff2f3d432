------------------------------- MODULE Stakes -------------------------------
(***************************************************************************)
(* The stakes ledger (data_structures/src/staking).                         *)
(*                                                                         *)
(* A stake belongs to a pair of a validator and a withdrawer.  It has an    *)
(* amount of coins, one average epoch for each capability, from which coin  *)
(* age and power derive, and the epoch of its last manual change (nonce).   *)
(* The implementation keeps the stakes behind three indexes; here there is  *)
(* one function, and every query is defined from it.                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

VARIABLES
  st,     \* <<validator, withdrawer>> -> [c, m, x, n]: coins, mining epoch, witnessing epoch, nonce
  unit,   \* power counts coins in units of this many
  min,    \* no stake is allowed below this
  res     \* outcome of the last operation

stakeVars == <<st, unit, min, res>>

StakesInit(u, m) == st = [k \in {} |-> 0] /\ unit = u /\ min = m /\ res = "ok"

Max2(a, b) == IF a > b THEN a ELSE b
LP(c) == c \div unit                               \* amounts lose precision before they make power
Of(v) == {k \in DOMAIN st : k[1] = v}
By(w) == {k \in DOMAIN st : k[2] = w}
Empty == [c |-> 0, m |-> 0, x |-> 0, n |-> 0]
Age(e, at) == Max2(0, at - e)
Power(s, cap, at) == LP(s.c) * Age(IF cap = "m" THEN s.m ELSE s.x, at)

(* Adding coins moves both average epochs, weighted by the amounts. *)
Mix(c, e, add, at) == (LP(c) * e + LP(add) * at) \div LP(c + add)
Grow(s, add, at) == [s EXCEPT !.c = @ + add, !.m = Mix(s.c, @, add, at), !.x = Mix(s.c, @, add, at)]

(* Decreasing power; ties in decreasing order of the key. *)
Rank(cap, at) == LET better(a, b) == LET p == Power(st[a], cap, at)  q == Power(st[b], cap, at)
                                     IN  p > q \/ (p = q /\ (a[1] > b[1] \/ (a[1] = b[1] /\ a[2] > b[2])))
                 IN  SetToSortSeq(DOMAIN st, better)

ValidatorPower(v, cap, at) ==
   LET P == {Power(st[k], cap, at) : k \in Of(v)} IN CHOOSE p \in P : \A q \in P : q <= p

Fail(r) == res' = r /\ UNCHANGED <<st, unit, min>>
Put(k, s) == /\ st' = [j \in DOMAIN st \cup {k} |-> IF j = k THEN s ELSE st[j]]
             /\ res' = "ok" /\ UNCHANGED <<unit, min>>
Drop(k) == /\ st' = [j \in DOMAIN st \ {k} |-> st[j]]
           /\ res' = "ok" /\ UNCHANGED <<unit, min>>

AddStake(k, c, at, setNonce) ==
  IF c < min THEN Fail("below")
  ELSE LET old == IF k \in DOMAIN st THEN st[k] ELSE [Empty EXCEPT !.n = at]
           new == Grow(old, c, at)
       IN  Put(k, IF setNonce THEN [new EXCEPT !.n = at] ELSE new)

(* What a stake transaction may do: one withdrawer for each validator. *)
MayStake(k) == Of(k[1]) = {} \/ k \in DOMAIN st
Stake(k, c, at) == IF ~MayStake(k) THEN Fail("withdrawer") ELSE AddStake(k, c, at, TRUE)

RemoveStake(k, c, at, setNonce) ==
  IF k \notin DOMAIN st THEN Fail("nokey")
  ELSE LET left == st[k].c - c IN
       IF left < 0 \/ (left > 0 /\ left < min) THEN Fail("below")
       ELSE IF left = 0 THEN Drop(k)
       ELSE Put(k, [st[k] EXCEPT !.c = left, !.n = IF setNonce THEN at ELSE @])

(* The stake of a validator when it has exactly one, which stake           *)
(* transactions guarantee.                                                  *)
Only(v) == CHOOSE k \in Of(v) : TRUE
AddReward(v, c, at) ==
  IF Of(v) = {} THEN Fail("novalidator")
  ELSE Put(Only(v), Grow(st[Only(v)], c, at))

(* Takes the amount, or nothing when what is left would not be a stake. *)
Reserve(v, c) ==
  IF Of(v) = {} THEN Fail("novalidator")
  ELSE LET left == st[Only(v)].c - c IN
       IF left < min THEN Fail("ok") ELSE Put(Only(v), [st[Only(v)] EXCEPT !.c = left])

SetAge(s, cap, e) == IF cap = "m" THEN [s EXCEPT !.m = e] ELSE [s EXCEPT !.x = e]
GetAge(s, cap) == IF cap = "m" THEN s.m ELSE s.x

(* Resets the coin age of a validator: entirely (factor 1), or by a part. *)
ResetAge(v, cap, at, f) ==
  IF Of(v) = {} THEN Fail("novalidator")
  ELSE /\ st' = [k \in DOMAIN st |-> IF k \in Of(v)
                   THEN SetAge(st[k], cap, GetAge(st[k], cap) + (at - GetAge(st[k], cap)) \div f)
                   ELSE st[k]]
       /\ res' = "ok" /\ UNCHANGED <<unit, min>>
CanReset(v, cap, at, f) == f = 1 \/ \A k \in Of(v) : GetAge(st[k], cap) <= at

(* The proposer, and whoever ranks above it, start again; the better the   *)
(* rank, the further in the future.                                         *)
ResetMining(v, at) ==
  /\ LET r == Rank("m", at)
         pos == {i \in 1..Len(r) : r[i][1] = v}
     IN  IF pos = {} THEN st' = st
         ELSE LET w == CHOOSE i \in pos : \A j \in pos : i <= j
                  at_(k) == CHOOSE i \in 1..Len(r) : r[i] = k
              IN  st' = [k \in DOMAIN st |-> IF at_(k) <= w THEN [st[k] EXCEPT !.m = at + 1 + w - at_(k)] ELSE st[k]]
  /\ res' = "ok" /\ UNCHANGED <<unit, min>>

Reload == res' = "ok" /\ UNCHANGED <<st, unit, min>>

RECURSIVE SumCoins(_)
SumCoins(S) == IF S = {} THEN 0 ELSE LET k == CHOOSE k \in S : TRUE IN st[k].c + SumCoins(S \ {k})
Total == SumCoins(DOMAIN st)

(* Selections from the rank. *)
StepBy(s, n) == [i \in 1..((Len(s) + n - 1) \div n) |-> s[(i - 1) * n + 1]]
Take(s, n) == SubSeq(s, 1, IF n < Len(s) THEN n ELSE Len(s))
Evenly(s, n) == IF n = 0 THEN <<>> ELSE Take(StepBy(s, Max2(1, Len(s) \div n)), n)

(* Everything observable of the ledger at an epoch. *)
Entries == {[v |-> k[1], w |-> k[2]] @@ st[k] : k \in DOMAIN st}
RankObs(cap, at) == LET r == Rank(cap, at) IN [i \in 1..Len(r) |-> <<r[i][1], r[i][2], Power(st[r[i]], cap, at)>>]
Obs(at, n) ==
  [res |-> res,
   entries |-> Entries,
   m |-> RankObs("m", at), x |-> RankObs("x", at),
   byv |-> {<<v, Of(v), ValidatorPower(v, "m", at), ValidatorPower(v, "x", at)>> : v \in {k[1] : k \in DOMAIN st}},
   byw |-> {<<w, By(w)>> : w \in {k[2] : k \in DOMAIN st}},
   total |-> Total, count |-> Cardinality(DOMAIN st), validators |-> Cardinality({k[1] : k \in DOMAIN st}),
   step |-> StepBy(Rank("m", at), Max2(1, n)), take |-> Take(Rank("m", at), n), evenly |-> Evenly(Rank("x", at), n)]

------------------------------------------------------------------------------
(* Properties. *)
StakesInv == \A k \in DOMAIN st : st[k].c >= min /\ st[k].c > 0
(* Only a refused operation may fail, and it changes nothing. *)
Refused == res' # "ok" => st' = st
(* Stakes that are not touched keep their coins and nonce. *)
OthersKeep(k) == \A j \in DOMAIN st \ {k} : j \in DOMAIN st' /\ st'[j] = st[j]
(* Coins only enter or leave by the amount of the operation. *)
Conserve(d) == SumCoins(DOMAIN st)' = SumCoins(DOMAIN st) + (IF st' = st THEN 0 ELSE d)
=============================================================================
