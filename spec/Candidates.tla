------------------------------ MODULE Candidates ------------------------------
(***************************************************************************)
(* Which of the blocks that compete for an epoch a node takes               *)
(* (validations.rs compare_block_candidates), the thresholds that decide    *)
(* who may compete before wit/2 (eligibility/legacy.rs), and that the       *)
(* preference is one that all nodes share: a strict total order.            *)
(*                                                                         *)
(* A candidate is [h, rep, vrf, act, pow]: hash of the block, reputation of *)
(* its miner, its random draw, whether the miner is active, and its power.  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, Words
Sign(a, b) == IF a > b THEN 1 ELSE IF a < b THEN -1 ELSE 0
(* The first slot whose target the draw does not exceed *)
Slot(targets, vrf) ==
  LET I == {i \in 1..Len(targets) : vrf <= targets[i]}
  IN  IF I = {} THEN Len(targets) ELSE (CHOOSE i \in I : \A j \in I : i <= j) - 1
Keyed(targets, v2, c) ==
  IF v2 THEN <<c.pow, -c.vrf, -c.h>>
  ELSE <<-Slot(targets, c.vrf), IF c.rep > 0 THEN 1 ELSE 0, IF c.act THEN 1 ELSE 0, -c.vrf, -c.h>>
LexCmp(x, y) ==
  LET D == {i \in 1..Len(x) : x[i] # y[i]}
  IN  IF D = {} THEN 0 ELSE LET i == CHOOSE i \in D : \A j \in D : i <= j IN Sign(x[i], y[i])
Cmp(targets, v2, a, b) == LexCmp(Keyed(targets, v2, a), Keyed(targets, v2, b))
Best(targets, v2, cs) == CHOOSE i \in 1..Len(cs) : \A j \in 1..Len(cs) : Cmp(targets, v2, cs[i], cs[j]) >= 0
Matrix(targets, v2, cs) == [i \in 1..Len(cs) |-> [j \in 1..Len(cs) |-> Cmp(targets, v2, cs[i], cs[j])]]

(* The draw that may propose a block when so many identities are active     *)
Max2(a, b) == IF a > b THEN a ELSE b
Randpoe(total, factor, ep, difficulty, easy, wips) ==
  LET m == Max2(1, difficulty)
  IN  High(IF ep <= easy THEN DivWord(Ones, m)
           ELSE MulSat(DivWord(Ones, Max2(total, IF wips THEN m ELSE 1)), factor))
Slots(total, factor, backup, ep, difficulty, easy, wips) ==
  [i \in 1..Max2(0, backup - factor + 1) |-> Randpoe(total, factor + i - 1, ep, difficulty, easy, wips)]

(* Properties: total, antisymmetric, transitive, and no two different       *)
(* blocks tie; the targets of later slots are never below earlier ones.     *)
Order(targets, v2, C) ==
  /\ \A a, b \in C : Cmp(targets, v2, a, b) = -Cmp(targets, v2, b, a) /\ (a.h # b.h => Cmp(targets, v2, a, b) # 0)
  /\ \A a, b, c \in C : (Cmp(targets, v2, a, b) > 0 /\ Cmp(targets, v2, b, c) > 0) => Cmp(targets, v2, a, c) > 0
SlotsGrow(s) == \A i \in 1..(Len(s) - 1) : ~Below(s[i + 1], s[i])
=============================================================================
