-------------------------------- MODULE Trs --------------------------------
(***************************************************************************)
(* The total reputation ledger (reputation/src/trs.rs).                     *)
(*                                                                         *)
(* Reputation is issued in packets that expire at a given `alpha'.  The     *)
(* ledger is the queue of packets, ordered by expiration; the balance of an *)
(* identity is, by definition, the sum of what is left of its packets.      *)
(* The implementation additionally keeps a cache of the balances; the cache *)
(* is an observable here (Obs.bal) and has to equal the definition.         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

VARIABLES
  queue,   \* Seq([exp : Int, pk : [subset of Id -> positive Int]])
  res      \* result of the last operation [ok : BOOLEAN, val : Int]

trsVars == <<queue, res>>

Get(f, k)  == IF k \in DOMAIN f THEN f[k] ELSE 0
Put(f, k, v) == IF v = 0 THEN [x \in DOMAIN f \ {k} |-> f[x]]
                ELSE [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
EmptyMap == [x \in {} |-> 0]

SumSeq(s) == FoldSeq(LAMBDA x, acc : x + acc, 0, s)
RECURSIVE MapSumOver(_, _)
MapSumOver(f, S) == IF S = {} THEN 0 ELSE LET k == CHOOSE k \in S : TRUE
                                          IN f[k] + MapSumOver(f, S \ {k})
MapSum(f) == MapSumOver(f, DOMAIN f)

Ids(q)    == UNION {DOMAIN q[i].pk : i \in 1..Len(q)}
Rep(q, id) == SumSeq([i \in 1..Len(q) |-> Get(q[i].pk, id)])
Balances(q) == [id \in Ids(q) |-> Rep(q, id)]
Total(q)  == SumSeq([i \in 1..Len(q) |-> MapSum(q[i].pk)])

\* merge a sequence of <<id, amount>> pairs into a packet
RECURSIVE Merge(_, _)
Merge(pk, d) == IF d = <<>> THEN pk
                ELSE Merge(Put(pk, d[1].id, Get(pk, d[1].id) + d[1].v), Tail(d))

---------------------------------------------------------------------------
TrsInit == queue = <<>> /\ res = [ok |-> TRUE, val |-> 0]

(* Issue packets: d is a sequence of [id, v].  Out of order is refused.     *)
Gain(e, d) ==
  IF queue # <<>> /\ Last(queue).exp > e
  THEN /\ res' = [ok |-> FALSE, val |-> 0]
       /\ UNCHANGED queue
  ELSE /\ res' = [ok |-> TRUE, val |-> 0]
       /\ queue' = IF queue # <<>> /\ Last(queue).exp = e
                   THEN [queue EXCEPT ![Len(queue)].pk = Merge(@, d)]
                   ELSE Append(queue, [exp |-> e, pk |-> Merge(EmptyMap, d)])

(* Drop every packet whose time has come; report how much was dropped.      *)
Expire(a) ==
  LET due == SelectSeq(queue, LAMBDA p : p.exp <= a)
  IN  /\ queue' = SelectSeq(queue, LAMBDA p : p.exp > a)
      /\ res' = [ok |-> TRUE, val |-> Total(due)]

(* The penalization function of the protocol maps an old balance to a new   *)
(* one.  The ones exercised: keep n/d of it, leave exactly n, take n away,   *)
(* and (illegal) grow by n.                                                 *)
NextV(f, old) ==
  CASE f.kind = "frac" -> (old * f.n) \div f.d
    [] f.kind = "min"  -> IF old < f.n THEN old ELSE f.n
    [] f.kind = "sub"  -> IF old < f.n THEN 0 ELSE old - f.n
    [] f.kind = "grow" -> old + f.n

RECURSIVE Burn(_, _, _, _)
\* take `amount' away from id, starting with the packet that expires last
Burn(q, i, id, amount) ==
  IF amount = 0 \/ i = 0 THEN q
  ELSE LET have == Get(q[i].pk, id)
           take == IF have < amount THEN have ELSE amount
       IN  Burn([q EXCEPT ![i].pk = Put(@, id, have - take)], i - 1, id, amount - take)

RECURSIVE PenalizeAll(_, _, _)
\* returns [ok, q, burnt]
PenalizeAll(q, ps, burnt) ==
  IF ps = <<>> THEN [ok |-> TRUE, q |-> q, burnt |-> burnt]
  ELSE LET p == ps[1]
           old == Rep(q, p.id)
           new == NextV(p, old)
       IN  IF new > old THEN [ok |-> FALSE, q |-> q, burnt |-> 0]
           ELSE PenalizeAll(Burn(q, Len(q), p.id, old - new), Tail(ps), burnt + old - new)

(* All or nothing: when one of the penalizations is illegal nothing happens *)
Penalize(ps) ==
  LET r == PenalizeAll(queue, ps, 0)
  IN  IF r.ok THEN queue' = r.q /\ res' = [ok |-> TRUE, val |-> r.burnt]
      ELSE UNCHANGED queue /\ res' = [ok |-> FALSE, val |-> 0]

Clear == queue' = <<>> /\ res' = [ok |-> TRUE, val |-> 0]

(* A queue in the wrong order makes no ledger.                              *)
Backwards == res' = [ok |-> Len(queue) < 2, val |-> 0] /\ UNCHANGED queue
(* Save to disk and load back (bincode), or rebuild from its own queue.     *)
Reload == UNCHANGED queue /\ res' = [ok |-> TRUE, val |-> 0]

---------------------------------------------------------------------------
(* What the API shows                                                       *)
NonEmpty(q) == SelectSeq(q, LAMBDA p : DOMAIN p.pk # {})
Obs == [res |-> res,
        queue |-> NonEmpty(queue),
        bal |-> Balances(queue),
        total |-> Total(queue),
        n |-> Cardinality(Ids(queue))]

(* Properties                                                               *)
TrsTypeOK == \A i \in 1..Len(queue) :
              \A id \in DOMAIN queue[i].pk : queue[i].pk[id] > 0
Sorted    == \A i, j \in 1..Len(queue) : i < j => queue[i].exp < queue[j].exp
CacheIsLedger == /\ MapSum(Balances(queue)) = Total(queue)
                 /\ \A id \in Ids(queue) : Rep(queue, id) > 0
TrsInv == TrsTypeOK /\ Sorted /\ CacheIsLedger

(* Conservation, as action properties over one step: total reputation only  *)
(* changes by what is issued, expired or burnt, and the reported value is   *)
(* what disappeared.                                                        *)
ExpireExact(a) == /\ Total(queue') = Total(queue) - res'.val
                  /\ \A i \in 1..Len(queue') : queue'[i].exp > a
PenalizeExact  == Total(queue') = Total(queue) - res'.val
=============================================================================
