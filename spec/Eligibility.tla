----------------------------- MODULE Eligibility -----------------------------
(***************************************************************************)
(* Who may propose a block and who may witness a request, since wit/2       *)
(* (validations/src/eligibility/current.rs), as a function of the ledger of *)
(* stakes alone.                                                            *)
(*                                                                         *)
(* Proposing is for the first of the mining rank, as many as the factor     *)
(* says, and never more than two thirds of the stakes.  Witnessing is for   *)
(* those with more power than the one at the place of the rank that the     *)
(* number of witnesses and the round say, and whose random draw falls below *)
(* a target that grows with the digits of their power.                      *)
(***************************************************************************)
EXTENDS Stakes, Words

Min2(a, b) == IF a < b THEN a ELSE b
Places(n) == Min2(n, (2 * Cardinality(DOMAIN st)) \div 3)
MayMine(v, at, factor) == LET r == Rank("m", at) IN \E i \in 1..Min2(Places(factor), Len(r)) : r[i][1] = v

PowerAt(i, at) == LET r == Rank("x", at) IN IF i \in 1..Len(r) THEN Power(st[r[i]], "x", at) ELSE 0
(* With a single place there is no threshold. *)
Threshold(at, witnesses, round) == LET n == witnesses * 2^round IN IF n < 2 THEN 0 ELSE PowerAt(n, at)
Dividend(v, at, rounds) == rounds * Bits(ValidatorPower(v, "x", at))
Divisor(at, witnesses, round, rounds) == round * Bits(Threshold(at, witnesses, round)) + (rounds - round) * Bits(PowerAt(1, at))
Target(a, b) == IF b = 0 THEN High(Ones) ELSE High(MulSat(DivWord(Ones, b), a))

No(why) == [res |-> why, t |-> <<0, 0, 0, 0>>, rest |-> 0]
MayWitness(v, at, witnesses, round, rounds) ==
  IF Of(v) = {} THEN No("none")
  ELSE LET p == ValidatorPower(v, "x", at) IN
       IF p = 0 \/ p <= Threshold(at, witnesses, round) THEN No("power")
       ELSE [res |-> "yes", rest |-> 255,
             t |-> Target(Dividend(v, at, rounds), Divisor(at, witnesses, round, rounds))]
(* The chance it reports, in thousandths *)
Chance(v, at, witnesses, round, rounds) ==
  LET b == Divisor(at, witnesses, round, rounds) IN
  IF MayWitness(v, at, witnesses, round, rounds).res # "yes" THEN 0
  ELSE IF b = 0 THEN 1000 ELSE (1000 * Dividend(v, at, rounds)) \div b

Answer(q, at) ==
  IF q.q = "mine" THEN [res |-> IF MayMine(q.v, at, q.rf) THEN "yes" ELSE "power", t |-> <<0, 0, 0, 0>>, rest |-> 0]
  ELSE MayWitness(q.v, at, q.w, q.round, q.rounds)
ChanceOf(q, at) == IF q.q = "mine" THEN 0 ELSE Chance(q.v, at, q.w, q.round, q.rounds)

------------------------------------------------------------------------------
(* Properties. *)
Vs == {k[1] : k \in DOMAIN st}
Miners(at, n) == {v \in Vs : MayMine(v, at, n)}
Witnesses(at, w, r, m) == {v \in Vs : MayWitness(v, at, w, r, m).res = "yes"}
EligibilityInv(at, n, rounds) ==
  /\ \A i \in 0..n : /\ Cardinality(Miners(at, i)) <= i
                     /\ i > 0 => Miners(at, i - 1) \subseteq Miners(at, i)
                     /\ 3 * Cardinality(Miners(at, i)) <= 2 * Cardinality(DOMAIN st)
  /\ \A w \in 1..n, r \in 0..rounds :
        \* fewer than the places, at more places in every further round, none without power
        /\ w * 2^r >= 2 => Cardinality(Witnesses(at, w, r, rounds)) < w * 2^r
        /\ (r > 0 /\ w >= 2) => Witnesses(at, w, r - 1, rounds) \subseteq Witnesses(at, w, r, rounds)
        /\ \A v \in Witnesses(at, w, r, rounds) : ValidatorPower(v, "x", at) > 0
        \* more power never has a worse chance
        /\ \A v, u \in Witnesses(at, w, r, rounds) :
              ValidatorPower(v, "x", at) >= ValidatorPower(u, "x", at) =>
                 ~Below(MayWitness(v, at, w, r, rounds).t, MayWitness(u, at, w, r, rounds).t)
=============================================================================
