------------------------------- MODULE TxPool -------------------------------
(***************************************************************************)
(* The pool of transactions waiting for a block                             *)
(* (data_structures/src/chain/mod.rs, TransactionsPool).                    *)
(*                                                                         *)
(* Value transfers, data requests, stakes and unstakes are kept by their    *)
(* fee per unit of weight and evicted from the low end when the pool is     *)
(* over its limit; commits and reveals are kept one per data request and    *)
(* identity.  The code keeps, beside the transactions, sorted indexes, a    *)
(* map of inputs and sums of weights; here there is just the set.           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

VARIABLES
  pool,       \* id -> [k, ins, fee, w]
  cms,        \* commits: set of [dr, who, id, ins]
  rvs,        \* reveals: set of [dr, who, id]
  drs,        \* dr -> [n, f]: data requests known to the data request pool: witnesses, commit and reveal fee
  cur, prev,  \* identifiers of transactions of this epoch and of the last one
  lim,        \* [max, num, den]: limit of weight, and ratio of value transfers to data requests
  minfee,
  ret         \* what the last operation returned

tpVars == <<pool, cms, rvs, drs, cur, prev, lim, minfee, ret>>
None == [k \in {} |-> 0]
Without(f, S) == [k \in DOMAIN f \ S |-> f[k]]
With(f, k, x) == [j \in DOMAIN f \cup {k} |-> IF j = k THEN x ELSE f[j]]
Kind(f, k) == {x \in DOMAIN f : f[x].k = k}
RECURSIVE Sum(_, _)
Sum(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN f[x].w + Sum(f, S \ {x})
Weight(f, k) == Sum(f, Kind(f, k))
(* unstake transactions do not count *)
Total(f) == Weight(f, "vt") + Weight(f, "dr") + Weight(f, "st")

(* weights of the transactions the harness makes: inputs, other outputs than the first, witnesses *)
WeightOf(k, i, o, n) == CASE k = "vt" -> 133 * i + 360 * (o + 1)
                          [] k = "dr" -> 133 * i + 36 * o + 46 + 636 * n + 100
                          [] k = "st" -> 133 * i + 36 * o + 105
                          [] k = "ut" -> 153

Less(f, a, b) == f[a].fee * f[b].w < f[b].fee * f[a].w       \* fee per weight
Lowest(f, S) == {x \in S : \A y \in S : ~ Less(f, y, x)}
(* what may be evicted next *)
Victims(f, m) ==
  LET vts == Kind(f, "vt")  ds == Kind(f, "dr")  sts == Kind(f, "st")
  IN  IF vts # {} /\ (ds = {} \/ Weight(f, "vt") * m.den >= Weight(f, "dr") * m.num) THEN Lowest(f, vts)
      ELSE IF ds # {} THEN Lowest(f, ds) ELSE Lowest(f, sts)
RECURSIVE Evictions(_, _)
(* all the possible sequences of evictions (more than one only if there are ties) *)
Evictions(f, m) == IF Total(f) <= m.max THEN {<<>>}
                   ELSE UNION {{<<v>> \o s : s \in Evictions(Without(f, {v}), m)} : v \in Victims(f, m)}
RECURSIVE LegalEviction(_, _, _)
LegalEviction(f, m, s) == IF s = <<>> THEN Total(f) <= m.max
                          ELSE /\ Total(f) > m.max /\ s[1] \in Victims(f, m)
                               /\ LegalEviction(Without(f, {s[1]}), m, Tail(s))
Elems(s) == {s[i] : i \in 1..Len(s)}

TpInit == /\ pool = None /\ cms = {} /\ rvs = {} /\ drs = None /\ cur = {} /\ prev = {}
          /\ lim = [max |-> 100000000, num |-> 1, den |-> 1] /\ minfee = 0 /\ ret = <<>>
SetMinFee(m) == minfee' = m /\ ret' = <<>> /\ UNCHANGED <<pool, cms, rvs, drs, cur, prev, lim>>
(* An insertion: t is turned down, or it goes in, and what the limit asks for goes out (e: evicted, in this order). *)
Add(id, t, rich, e) ==
   LET ok == /\ (t.k # "vt" \/ t.fee >= minfee) /\ (t.k # "dr" \/ rich)
   IN  /\ id \notin DOMAIN pool
       /\ IF ok THEN LegalEviction(With(pool, id, t), lim, e) /\ pool' = Without(With(pool, id, t), Elems(e))
          ELSE e = <<id>> /\ pool' = pool
       /\ ret' = e
   /\ UNCHANGED <<cms, rvs, drs, cur, prev, lim, minfee>>
AddKnown(id) == id \in DOMAIN pool /\ ret' = <<"known">> /\ UNCHANGED <<pool, cms, rvs, drs, cur, prev, lim, minfee>>
Limit(m, e) ==
   /\ lim' = m /\ LegalEviction(pool, m, e) /\ pool' = Without(pool, Elems(e)) /\ ret' = e
   /\ UNCHANGED <<cms, rvs, drs, cur, prev, minfee>>
Conflicts(ins) == {x \in DOMAIN pool : pool[x].ins \cap ins # {}}
(* A block with this transaction (known or not): it goes, and so does all that spends the same outputs. *)
Mined(id, ins) ==
   /\ ret' = IF id \in DOMAIN pool THEN <<id>> ELSE <<>>
   /\ pool' = Without(pool, {id} \cup Conflicts(ins))
   /\ UNCHANGED <<cms, rvs, drs, cur, prev, lim, minfee>>
Spent(ins) == pool' = Without(pool, Conflicts(ins)) /\ ret' = <<>> /\ UNCHANGED <<cms, rvs, drs, cur, prev, lim, minfee>>
(* Transactions of one kind that are no longer valid go, the others stay. *)
Invalid(k, ids) == pool' = Without(pool, ids \cap Kind(pool, k)) /\ ret' = <<>> /\ UNCHANGED <<cms, rvs, drs, cur, prev, lim, minfee>>
ClearKind(k) == Invalid(k, Kind(pool, k))
Clear == /\ pool' = None /\ cms' = {} /\ rvs' = {} /\ cur' = {} /\ prev' = {} /\ ret' = <<>> /\ UNCHANGED <<drs, lim, minfee>>
Unconfirmed(id) == cur' = cur \cup {id} /\ ret' = <<>> /\ UNCHANGED <<pool, cms, rvs, drs, prev, lim, minfee>>
NewEpoch == prev' = cur /\ cur' = {} /\ ret' = <<>> /\ UNCHANGED <<pool, cms, rvs, drs, lim, minfee>>
(* The chain is rolled back: what came in the last two epochs is taken out, to be put in again. *)
Reorg(out) ==
   /\ Elems(out) = (cur \cup prev) \cap DOMAIN pool /\ Len(out) = Cardinality(Elems(out))
   /\ pool' = Without(pool, Elems(out)) /\ ret' = out
   /\ cms' = {} /\ rvs' = {} /\ cur' = {} /\ prev' = {} /\ UNCHANGED <<drs, lim, minfee>>

Dr(d, n, f) == drs' = With(drs, d, [n |-> n, f |-> f]) /\ ret' = <<>> /\ UNCHANGED <<pool, cms, rvs, cur, prev, lim, minfee>>
Arrival(S, c) == IF \E x \in S : x.dr = c.dr /\ x.who = c.who
                 THEN IF \E x \in S : x.id = c.id THEN "known" ELSE "duplicate" ELSE "new"
Commit(c) == /\ ret' = <<Arrival(cms, c)>> /\ cms' = IF Arrival(cms, c) = "new" THEN cms \cup {c} ELSE cms
             /\ UNCHANGED <<pool, rvs, drs, cur, prev, lim, minfee>>
Reveal(r) == /\ ret' = <<Arrival(rvs, r)>> /\ rvs' = IF Arrival(rvs, r) = "new" THEN rvs \cup {r} ELSE rvs
             /\ UNCHANGED <<pool, cms, drs, cur, prev, lim, minfee>>
RevealMined(id) == /\ ret' = (IF \E r \in rvs : r.id = id THEN <<id>> ELSE <<>>)
                   /\ rvs' = {r \in rvs : r.id # id}
                   /\ UNCHANGED <<pool, cms, drs, cur, prev, lim, minfee>>
Finish(d) == rvs' = {r \in rvs : r.dr # d} /\ ret' = <<>> /\ UNCHANGED <<pool, cms, drs, cur, prev, lim, minfee>>
ClearCommits == cms' = {} /\ ret' = <<>> /\ UNCHANGED <<pool, rvs, drs, cur, prev, lim, minfee>>

(* Commits for a block: for some of the data requests, exactly as many as it wants, and no output twice.  Commits expire. *)
Of(d) == {c \in cms : c.dr = d}
Candidates == {d \in DOMAIN drs : Of(d) # {} /\ Cardinality(Of(d)) >= drs[d].n}
Alone(c) == \A x \in cms : x.id # c.id => x.ins \cap c.ins = {}
LegalBlock(S) ==    \* S: set of commits
   LET ds == {c.dr : c \in S}
   IN  /\ S \subseteq cms /\ ds \subseteq Candidates
       /\ \A d \in ds : Cardinality({c \in S : c.dr = d}) = drs[d].n
       /\ \A a, b \in S : a # b => a.ins \cap b.ins = {}
       /\ \A d \in Candidates : Cardinality({c \in Of(d) : Alone(c)}) >= drs[d].n /\ drs[d].n > 0 => d \in ds
RECURSIVE SumF(_)
SumF(D) == IF D = {} THEN 0 ELSE LET d == CHOOSE d \in D : TRUE IN drs[d].n * drs[d].f + SumF(D \ {d})
Fees(S) == SumF({c.dr : c \in S})
MineCommits(S) == LegalBlock(S) /\ cms' = {} /\ ret' = <<S, Fees(S)>> /\ UNCHANGED <<pool, rvs, drs, cur, prev, lim, minfee>>

Revealing == {r \in rvs : r.dr \in DOMAIN drs}
RECURSIVE RFees(_)
RFees(S) == IF S = {} THEN 0 ELSE LET r == CHOOSE r \in S : TRUE IN drs[r.dr].f + RFees(S \ {r})
Totals == [total |-> Total(pool), empty |-> pool = None /\ cms = {} /\ rvs = {},
           co |-> {c.id : c \in cms}, re |-> {r.id : r \in rvs}, block_re |-> {r.id : r \in Revealing}, re_fee |-> RFees(Revealing)]
------------------------------------------------------------------------------
TpInv == Total(pool) <= lim.max
(* whatever is evicted pays no more per weight than what stays of its kind *)
Fair == [][lim' = lim /\ minfee' = minfee /\ DOMAIN pool' \ DOMAIN pool # {} =>
            \A x \in DOMAIN pool \ DOMAIN pool' : \A y \in DOMAIN pool' : pool'[y].k = pool[x].k =>
                pool[x].fee * pool'[y].w <= pool'[y].fee * pool[x].w]_tpVars
=============================================================================
