------------------------------- MODULE RepEngine -------------------------------
(***************************************************************************)
(* The reputation engine (data_structures ReputationEngine, the node's      *)
(* update_reputation) and the eligibility that it gave before wit/2         *)
(* (validations/src/eligibility/legacy.rs).                                 *)
(*                                                                         *)
(* Reputation is the ledger of Trs, activity the set of Ars.  A block with  *)
(* tallies expires what is due, takes from the liars, issues for every      *)
(* witnessing act, and shares all that among the honest; what does not      *)
(* divide is kept for the next block.  Eligibility depends on the place     *)
(* among the active identities: reputation spreads along a trapezoid.       *)
(* The implementation caches all of that; nothing here is cached.           *)
(***************************************************************************)
EXTENDS Trs, Words

VARIABLES
  cap, rows, last, ok,   \* the active set, see Ars
  alpha,                 \* witnessing acts so far
  extra,                 \* reputation left over by the last block
  keys                   \* identities whose keys for superblocks are kept
A == INSTANCE Ars
repVars == <<trsVars, cap, rows, last, ok, alpha, extra, keys>>
RepInit(n) == TrsInit /\ A!ArsInit(n) /\ alpha = 0 /\ extra = 0 /\ keys = {}

Lo(a, b) == IF a < b THEN a ELSE b
Hi(a, b) == IF a > b THEN a ELSE b
Elems(s) == {s[i] : i \in 1..Len(s)}

------------------------------------------------------------------------------
(* A block.  rs: per witness [id, t, e, l], how often it told the truth,    *)
(* failed and lied; k: the constants [iss, stop, life, pow], where a lie    *)
(* divides reputation by 2^pow.                                             *)
Honest(rs) == SelectSeq(rs, LAMBDA r : r.l = 0 /\ r.t >= r.e)
Liars(rs) == SelectSeq(rs, LAMBDA r : r.l > 0)
Issued(k, old, new) == IF old >= k.stop THEN 0 ELSE (Lo(k.stop, new) - old) * k.iss
Block(k, miner, rs, diff, ep) ==
  LET new == alpha + diff
      due == SelectSeq(queue, LAMBDA p : p.exp <= alpha)
      kept == SelectSeq(queue, LAMBDA p : p.exp > alpha)
      fines == PenalizeAll(kept, [i \in 1..Len(Liars(rs)) |-> [kind |-> "frac", id |-> Liars(rs)[i].id, n |-> 1, d |-> 2^Lo(30, k.pow * Liars(rs)[i].l)]], 0)
      bounty == extra + Total(due) + Issued(k, alpha, new) + fines.burnt
      n == Len(Honest(rs))
      each == bounty \div n
      e == new + k.life
      pay == [i \in 1..n |-> [id |-> Honest(rs)[i].id, v |-> each]]
      q == fines.q
  IN  /\ queue' = IF n = 0 THEN q
                  ELSE IF q # <<>> /\ Last(q).exp = e THEN [q EXCEPT ![Len(q)].pk = Merge(@, pay)]
                  ELSE Append(q, [exp |-> e, pk |-> Merge(EmptyMap, pay)])
      /\ extra' = IF n = 0 THEN bounty ELSE bounty - n * each
      /\ A!Update([i \in 1..Len(rs) |-> rs[i].id] \o <<miner>>, ep)
      /\ alpha' = new /\ res' = res
      /\ keys' = keys \cap A!Active'
(* Nothing appears or disappears but what is issued *)
BlockExact(k, diff) == Total(queue') + extra' = Total(queue) + extra + Issued(k, alpha, alpha + diff)

Earn(e, d) == Gain(e, d) /\ UNCHANGED <<cap, rows, last, ok, alpha, extra, keys>>
Lose(ps) == Penalize(ps) /\ UNCHANGED <<cap, rows, last, ok, alpha, extra, keys>>
Lapse(a) == Expire(a) /\ UNCHANGED <<cap, rows, last, ok, alpha, extra, keys>>
Act(s) == A!Push(s) /\ UNCHANGED <<trsVars, alpha, extra, keys>>
SetAlpha(a) == alpha' = a /\ UNCHANGED <<trsVars, cap, rows, last, ok, extra, keys>>
Key(id) == keys' = keys \cup {id} /\ UNCHANGED <<trsVars, cap, rows, last, ok, alpha, extra>>
Same == UNCHANGED repVars

------------------------------------------------------------------------------
(* Who comes first: by reputation; among those with the same, by a hash of  *)
(* identity and alpha, best is the sequence in decreasing order of it; and  *)
(* those with none by name.                                                 *)
PosIn(s, x) == CHOOSE i \in 1..Len(s) : s[i] = x
Ordered(best) ==
  LET r == [id \in A!Active |-> Rep(queue, id)]
      first(x, y) == r[x] > r[y] \/ (r[x] = r[y] /\ IF r[x] > 0 THEN PosIn(best, x) < PosIn(best, y) ELSE x > y)
  IN  SetToSortSeq(A!Active, first)
Reputed(list) == SelectSeq(list, LAMBDA id : Rep(queue, id) > 0)
SumOf(f) == SumSeq([i \in 1..Len(f) |-> f[i]])

(* The slope of the trapezoid at the place i of L, for a total t and a      *)
(* minimum m: 3 (t - L m) (L - i) / 2 L (L - 1), rounded.  An exact half    *)
(* may go either way (up is the set of places where it goes up).            *)
Num(t, m, L, i) == 3 * (t - L * m) * (L - i)
Den(L) == 2 * L * (L - 1)
Half(t, m, L, i) == L > 1 /\ (2 * Num(t, m, L, i)) % (2 * Den(L)) = Den(L)
Slope(t, m, L, i, up) ==
  IF L = 1 THEN 0
  ELSE IF Half(t, m, L, i) THEN (Num(t, m, L, i) \div Den(L)) + (IF i \in up THEN 1 ELSE 0)
  ELSE (2 * Num(t, m, L, i) + Den(L)) \div (2 * Den(L))
(* The eligibility of the reputed, in order of reputation *)
Trapezoid(list, up) ==
  LET s == Reputed(list)
      L == Len(s)
      t == SumSeq([i \in 1..L |-> Rep(queue, s[i])])
      m == Rep(queue, s[L])
      top == [i \in 1..L |-> Slope(t, m, L, i, up)]
      left == t - SumSeq(top)
  IN  IF L = 0 THEN <<>> ELSE [i \in 1..L |-> top[i] + (left \div L) + (IF i <= left % L THEN 1 ELSE 0)]
Halves(list) ==
  LET s == Reputed(list)  L == Len(s)  t == SumSeq([i \in 1..L |-> Rep(queue, s[i])])
  IN  IF L = 0 THEN {} ELSE {i \in 1..L : Half(t, Rep(queue, s[L]), L, i)}
(* What the others are defined from: eligibility plus one, in order *)
Weights(list, tr) == [i \in 1..Len(list) |-> 1 + (IF i <= Len(tr) THEN tr[i] ELSE 0)]

(* By how much to raise the targets so that n are eligible *)
RECURSIVE Factor(_, _, _, _)
Factor(n, total, left, ws) ==
  IF n = 0 THEN 0
  ELSE IF ws = <<>> THEN -1       \* everybody
  ELSE IF Head(ws) * n > left THEN Factor(n - 1, total, left - Head(ws), Tail(ws))
  ELSE (total * n) \div left + (IF total % left = 0 THEN 0 ELSE 1)

MulAll(w, f) == IF f = -1 THEN MulSat(MulSat(w, 65536), 65536) ELSE MulSat(w, f)
(* The target of a witness with eligibility e *)
Reppoe(e, total, n, difficulty, wip16, fork3, factor) ==
  LET t == Hi(total, 1)  me == e + 1
  IN  High(IF wip16 THEN MulSat(MulSat(DivWord(Ones, Hi(t, difficulty)), me), n)
           ELSE IF fork3 THEN MulAll(MinWord(DivWord(Ones, difficulty), MulSat(DivWord(Ones, t), me)), factor)
           ELSE MulAll(MulSat(DivWord(Ones, t), me), factor))

(* The chance of mining the next block, in parts of 2^15 *)
One == 32768
Times(a, b) == (a * b + 16384) \div One
Raise(x, n) == FoldSeq(LAMBDA i, p : Times(p, x), One, [i \in 1..n |-> i])
Ratio(a, b) == (a * One + b \div 2) \div b
MiningChance(id, rf, bf) ==
  LET act == A!Active
      n == Cardinality(act)
      r(x) == Rep(queue, x) > 0
      m == Cardinality({x \in act : r(x) /\ ~r(id)})
      s == Cardinality({x \in act : ~r(x) /\ r(id)})
      l == n - m - s + (IF id \in act THEN 0 ELSE 1)
      first == Times((One - Raise(Ratio(n - rf, n), l)) \div l, Raise(Ratio(n - rf, n), m))
      slot(k) == Times(Times((One - Raise(Ratio(n - 1, n), l)) \div l, Raise(Ratio(n - k, n), m)), Raise(Ratio(n + 1 - k, n), l + s - 1))
  IN  IF n = 0 THEN One
      ELSE IF rf > n THEN (IF m = 0 THEN One \div l ELSE 0)
      ELSE first + SumSeq([i \in 1..Hi(0, Lo(bf, n) - rf) |-> slot(rf + i)])

------------------------------------------------------------------------------
(* Properties. *)
RepInv(best) ==
  LET list == Ordered(best)
      tr == Trapezoid(list, {})
      ws == Weights(list, tr)
  IN  /\ TrsInv /\ A!ArsInv
      /\ Elems(list) = A!Active /\ Len(list) = Cardinality(A!Active)
      \* the trapezoid only moves reputation, and respects the order
      /\ SumSeq(tr) = SumSeq([i \in 1..Len(Reputed(list)) |-> Rep(queue, Reputed(list)[i])])
      /\ \A i \in 1..(Len(ws) - 1) : ws[i] >= ws[i + 1]
      /\ \A i \in 1..Len(tr) : tr[i] > 0
      \* as many as there are active can be asked for
      /\ \A n \in 1..Len(list) : Factor(n, SumSeq(ws), SumSeq(ws), ws) # -1
      /\ keys \subseteq A!Active \cup keys
=============================================================================
