------------------------------ MODULE MC_Rounds ------------------------------
(* Requests from their block to their tally, in blocks as an honest node     *)
(* would build them, with any reveals, silences and lies, and with one thing *)
(* wrong.                                                                   *)
EXTENDS Rounds, Json, TLC
CONSTANTS Depth, Eras, Main, Wits, Said, Filters, Wips, Quorums, MaxDrs
VARIABLES hist, at

People == 1..4
Base == [a18 |-> 20, a20 |-> 40, a21 |-> 60, main |-> Main, bn |-> 100, maxvt |-> 20000, maxdr |-> 80000, cmin |-> 4, reward |-> 7, halv |-> 1000000,
         extra |-> 1, fl |-> 0, wip |-> 2, dif |-> 1, nano |-> 0, drw |-> 84,
         utxo |-> <<<<1, 40, 0, 7>>, <<1, 4, 0, 1>>, <<2, 4, 0, 1>>, <<3, 9, 0, 1>>, <<4, 4, 0, 1>>, <<2, 20, 0, 2>>, <<3, 4, 0, 20>>, <<3, 4, 0, 21>>>>,
         stakes |-> <<>>]
Bonds == <<<<1, 1, 10000, 1>>, <<2, 2, 20000, 2>>, <<3, 13, 30000, 3>>, <<4, 4, 25000, 1>>>>
Cfg(e, f, w) == IF e >= 20 THEN [Base EXCEPT !.stakes = Bonds, !.fl = f, !.drw = 84 + 4 * f]
                ELSE [Base EXCEPT !.fl = f, !.drw = 84 + 4 * f, !.wip = w, !.nano = IF w = 1 THEN 1 ELSE 0]
First(e) == CASE e = 17 -> 10 [] e = 18 -> 20 [] e = 20 -> 40 [] e = 21 -> 60
(* the last epoch of the first version, so that a request crosses over *)
Starts(e) == IF e = 20 THEN {39, 40} ELSE {First(e)}

Old(k) == {x \in DOMAIN utxo : utxo[x].o = k /\ utxo[x].b <= Max2(0, bn - Age)}
(* the collateral of k for d *)
Coll(d, k) == IF V2(drs[d].ep) THEN {[ins |-> <<>>, outs |-> <<>>]}
  ELSE LET O == {x \in Old(k) : utxo[x].v >= Asked(d)} IN
       IF O = {} THEN {}
       ELSE LET x == CHOOSE x \in O : \A y \in O : x <= y IN
            {[ins |-> <<<<x, k, 1>>>>, outs |-> IF utxo[x].v = Asked(d) THEN <<>> ELSE <<<<k, utxo[x].v - Asked(d), 0>>>>]}
Can(d, k) == IF V2(drs[d].ep) THEN \E j \in Of(k) : stk[j].c >= MINST + Asked(d) ELSE Coll(d, k) # {}
CommitOf(d, k, v) == LET c == CHOOSE c \in Coll(d, k) : TRUE IN
  [d |-> d, k |-> k, ins |-> c.ins, outs |-> c.outs, val |-> v, good |-> 1, prf |-> 1]
Batches(d) == {<<>>} \cup
  UNION {{LET ks == SetToSortSeq(K, <) IN [i \in 1..Len(ks) |-> CommitOf(d, ks[i], f[ks[i]])] : f \in [K -> Said]}
         : K \in {K \in SUBSET {k \in People : Can(d, k)} : Cardinality(K) = drs[d].p.w}}
Bare(d) == {LET ks == SetToSortSeq(K, <) IN [i \in 1..Len(ks) |-> [d |-> d, k |-> ks[i], val |-> drs[d].cms[ks[i]], good |-> 1, sg |-> ks[i]]]
            : K \in SUBSET (DOMAIN drs[d].cms \ DOMAIN drs[d].rvs)}
TallyOf(b, d) ==
  LET s == StateOf(b, d)
      o == OutcomeOf(b, d)
      ks == SetToSortSeq(DOMAIN o.pay, <)
  IN  [d |-> d, res |-> o.res, ooc |-> SetToSortSeq(o.ooc, <), err |-> SetToSortSeq(o.err, <),
       outs |-> (IF V2(s.ep) THEN <<>> ELSE [i \in 1..Len(ks) |-> <<ks[i], o.pay[ks[i]], 0>>])
                \o (IF o.change > 0 THEN <<<<s.own, o.change, 0>>>> ELSE <<>>)]
Asks == LET X == {x \in DOMAIN utxo : utxo[x].o = 1 /\ utxo[x].v > 20} IN
  IF X = {} \/ ndr > MaxDrs THEN {<<>>}
  ELSE LET x == CHOOSE x \in X : TRUE IN
       {<<>>} \cup {<<[ins |-> <<<<x, 1, 1>>>>, outs |-> <<<<1, utxo[x].v - w * (r + 2) - 1, 0>>>>, w |-> w, r |-> r, f |-> 1, q |-> q, c |-> c, xs |-> 0]>>
                    : w \in Wits, r \in {2}, q \in Quorums, c \in {4}}
Seqs(S, f(_)) == LET ds == SetToSortSeq(S, <) IN
  FoldLeft(LAMBDA A, d : {a \o x : a \in A, x \in f(d)}, {<<>>}, ds)
Bodies == {[op |-> "block", ep |-> at, root |-> 0, miner |-> m, vts |-> <<>>, sts |-> <<>>, uts |-> <<>>, cms |-> c, rvs |-> r, drs |-> n]
           : m \in {2}, c \in Seqs(In("commit"), Batches), r \in Seqs(In("reveal"), Bare), n \in Asks}
Fill(b) == LET b1 == b @@ [tls |-> <<>>]
               ds == SetToSortSeq(In("tally") \cup NewCrowd(b1), <)
               b2 == [b1 EXCEPT !.tls = [i \in 1..Len(ds) |-> TallyOf(b1, ds[i])]]
               f == All(b2, [i \in 1..Len(b2.cms) |-> "y"])
               pay == f.fee + Reward(b.ep)
           IN  b2 @@ [mint |-> [ep |-> b.ep, outs |-> IF V2(b.ep) \/ ~f.ok \/ pay = 0 THEN <<>> ELSE <<<<b.miner, pay, b.ep>>>>]]
Without(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
(* One thing wrong *)
Spoilt(b) ==
     {[b EXCEPT !.cms = Without(@, 1)] : i \in 1..(IF b.cms = <<>> THEN 0 ELSE 1)}
  \cup {[b EXCEPT !.cms = Append(@, b.cms[1])] : i \in 1..(IF b.cms = <<>> THEN 0 ELSE 1)}
  \cup {[b EXCEPT !.cms[1].prf = 2] : i \in 1..(IF b.cms = <<>> THEN 0 ELSE 1)}
  \cup {[b EXCEPT !.rvs = Append(@, b.rvs[1])] : i \in 1..(IF b.rvs = <<>> THEN 0 ELSE 1)}
  \cup {[b EXCEPT !.rvs[1].val = 3] : i \in 1..(IF b.rvs = <<>> THEN 0 ELSE 1)}
  \cup {[b EXCEPT !.tls = <<>>] : i \in 1..(IF b.tls = <<>> THEN 0 ELSE 1)}
  \cup {[b EXCEPT !.tls = Append(@, b.tls[1])] : i \in 1..(IF b.tls = <<>> THEN 0 ELSE 1)}
  \cup {[b EXCEPT !.tls[1].outs = Append(@, <<1, 1, 0>>)] : i \in 1..(IF b.tls = <<>> THEN 0 ELSE 1)}
  \cup {[b EXCEPT !.tls[1].outs[1][2] = @ + 1] : i \in 1..(IF b.tls = <<>> \/ b.tls[1].outs = <<>> THEN 0 ELSE 1)}
  \cup {[b EXCEPT !.tls[1].ooc = Append(@, 4)] : i \in 1..(IF b.tls = <<>> THEN 0 ELSE 1)}
  \cup {[b EXCEPT !.tls[1].err = Append(@, 4)] : i \in 1..(IF b.tls = <<>> THEN 0 ELSE 1)}
  \cup {[b EXCEPT !.mint.outs[1][2] = @ + 1] : i \in 1..(IF b.mint.outs = <<>> THEN 0 ELSE 1)}

H(r) == hist' = Append(hist, r @@ [exp |-> RoundObs'])
Els(b) == [i \in 1..Len(b.cms) |-> "y"]
Start(e, a, f, w) ==
  LET c == Cfg(e, f, w) IN
  /\ hist = <<[op |-> "cfg"] @@ c @@ [exp |-> 0]>> /\ at = a /\ RoundsInit(c)
Init == \E e \in Eras, f \in Filters, w \in Wips : \E a \in Starts(e) : Start(e, a, f, w)
(* An honest block is always accepted: no request is ever in the way. *)
Next == Len(hist) <= Depth /\
        \E x \in Bodies :
          LET b == Fill(x) IN
          /\ Assert(MaxDrs > 1 \/ RoundOk(b, Els(b)), <<"stuck", b>>)
          /\ \E y \in {b} \cup Spoilt(b) : /\ Consolidate(y, Els(y)) /\ H(y)
                                         /\ at' = IF ok' THEN at + 1 ELSE at
Spec == Init /\ [][Next]_<<rvars, hist, at>>
View == <<utxo, stk, next, bn, at, cfg, drs, ndr>>
Emit == PrintT("@@" \o ToJson(hist'))

Inv == RoundsConserved /\ RoundsSane
Fresh == [][\A x \in DOMAIN utxo' : x \in DOMAIN utxo \/ x >= next]_<<rvars, hist, at>>
(* A request once resolved never comes back, and never goes back a stage. *)
Rank(d, D) == IF d \notin DOMAIN D THEN 4 ELSE CASE D[d].stage = "commit" -> 1 [] D[d].stage = "reveal" -> 2 [] D[d].stage = "tally" -> 3
Forward == [][\A d \in 1..(ndr - 1) : Rank(d, drs') >= Rank(d, drs)]_<<rvars, hist, at>>
(* However few take part, a request is over in time. *)
Progress == \A d \in DOMAIN drs : at - drs[d].ep <= 2 * (cfg.extra + 1) + 3
=============================================================================
