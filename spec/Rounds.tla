------------------------------- MODULE Rounds -------------------------------
(***************************************************************************)
(* Whole blocks, with the rounds of data requests: commits, reveals and     *)
(* tallies (validations/src/validations.rs, data_structures/src/            *)
(* data_request.rs), and what a node does to outputs, stakes and requests   *)
(* when it consolidates a block (node/src/actors/chain_manager/mod.rs).     *)
(*                                                                         *)
(* Amounts count wits.  A stake is [c, n, m, x]: coins, nonce, and the      *)
(* average epochs of its coins for mining and witnessing.                   *)
(* A value below 100 is an integer, below 200 a string, below 300 an error, *)
(* and 300 is not a value at all.                                           *)
(***************************************************************************)
EXTENDS Blocks
CONSTANT Lenient    \* allow what is recorded in known_findings.txt

VARIABLES
  drs,   \* number -> [own, ep, p, stage, cr, rr, cms, rvs]: p = [w, r, f, q, c], cms and rvs: identity -> value
  ndr    \* requests are numbered as they are created

rvars == <<vars, drs, ndr>>

Age == IF cfg.main = 1 THEN (IF cfg.wip >= 2 THEN 13440 ELSE 1000) ELSE 80
Super == 10
BlockReward == 50
Max2(a, b) == IF a > b THEN a ELSE b
None == [k \in {} |-> 0]
With(f, k, x) == [j \in DOMAIN f \cup {k} |-> IF j = k THEN x ELSE f[j]]
Validators == {k[1] : k \in DOMAIN stk}
Of(v) == {k \in DOMAIN stk : k[1] = v}
V2(ep) == Ver(ep) >= 20
Asked(d) == IF drs[d].p.c = 0 THEN cfg.cmin ELSE drs[d].p.c
In(st) == {d \in DOMAIN drs : drs[d].stage = st}
Unique(s) == Cardinality(ToSet(s)) = Len(s)

-----------------------------------------------------------------------------
(* Commits.  Before the second version the collateral is in old outputs of  *)
(* the committer; since then in its stake.  el: whether the draw made the   *)
(* committer eligible (Eligibility.tla).                                    *)
Balance(u, k) == LET O == {x \in DOMAIN u \cap DOMAIN utxo : utxo[x].o = k /\ utxo[x].b < Max2(0, bn - 2 * Super)}
                 IN  FoldLeft(LAMBDA a, x : a + utxo[x].v, 0, SetToSeq(O))
Commit(ep, u, t, el) ==
  /\ t.d \in In("commit") /\ el = "y"
  /\ LET d == drs[t.d]
         out == Total(t.outs)
         in == Sum([i \in 1..Len(t.ins) |-> IF t.ins[i][1] \in DOMAIN u THEN u[t.ins[i][1]].v ELSE 0])
     IN
     /\ Len(t.outs) <= 1
     /\ \A i \in 1..Len(t.outs) : t.outs[i][2] > 0 /\ t.outs[i][1] = t.k
     /\ V2(d.ep) => \E k \in Of(t.k) : stk[k].c >= MinStake(ep) + Asked(t.d)
     /\ Available(u, t.ins, ep)
     /\ \A i \in 1..Len(t.ins) : LET o == u[t.ins[i][1]] IN o.o = t.k /\ o.b <= Max2(0, bn - Age)
     /\ (~V2(d.ep) /\ ep > 2245000 /\ t.ins # <<>>) => Balance(u, t.k) >= 100
     /\ in - out = IF V2(d.ep) THEN 0 ELSE Asked(t.d)
  /\ t.good = 1 /\ t.prf = 1
Commits(b, s, el) ==
  FoldLeft(LAMBDA a, i : LET t == b.cms[i] IN
             IF ~a.ok \/ ~Commit(b.ep, a.u, t, el[i]) THEN No
             ELSE [Move(b.ep, a, t.ins, t.outs) EXCEPT !.fee = @ + drs[t.d].p.f],
           s, [i \in 1..Len(b.cms) |-> i])
(* All the witnesses of a request commit in one block, each once. *)
CommitsTogether(b) ==
  /\ Unique([i \in 1..Len(b.cms) |-> <<b.cms[i].d, b.cms[i].k>>])
  /\ \A i \in 1..Len(b.cms) : drs[b.cms[i].d].p.w = Cardinality({j \in 1..Len(b.cms) : b.cms[j].d = b.cms[i].d})

(* Reveals: of what was committed, once, by whom committed it. *)
Reveal(t) ==
  /\ t.d \in In("reveal")
  /\ t.good = 1 /\ t.sg = t.k
  /\ t.k \in DOMAIN drs[t.d].cms \ DOMAIN drs[t.d].rvs
  /\ drs[t.d].cms[t.k] = t.val
Reveals(b) ==
  /\ \A i \in 1..Len(b.rvs) : Reveal(b.rvs[i])
  /\ Unique([i \in 1..Len(b.rvs) |-> <<b.rvs[i].d, b.rvs[i].k>>])
RevealFees(b) == Sum([i \in 1..Len(b.rvs) |-> drs[b.rvs[i].d].p.f])

-----------------------------------------------------------------------------
(* The result of a request: no consensus, with everybody out of it and none *)
(* to blame; or a value agreed on by enough of those committed; or the      *)
(* failure of the script of the request over what was agreed on.            *)
Type(v) == IF v < 100 THEN 1 ELSE IF v < 200 THEN 2 ELSE 3
AtLeast(n, den, q) == 100 * n >= q * den
MoreThan(n, den, q) == 100 * n > q * den
(* the values most repeated, and how many times *)
Count(R, S, v) == Cardinality({k \in S : R[k] = v})
Most(R, S) == LET m == CHOOSE m \in {Count(R, S, R[k]) : k \in S} : \A k \in S : Count(R, S, R[k]) <= m
              IN  [n |-> m, vs |-> {R[k] : k \in {k \in S : Count(R, S, R[k]) = m}}]
Failed(R, res) == [res |-> res, liars |-> DOMAIN R, errors |-> DOMAIN R]
Insufficient(R, n, den) == Failed(R, <<"insuff", n, den>>)
Result(R, c, q, many) ==
  LET K == DOMAIN R
      types == [k \in K |-> Type(R[k])]
      T == Most(types, K)
      t == CHOOSE t \in T.vs : TRUE
      S == {k \in K : types[k] = t}
      M == Most(R, S)
      v == CHOOSE v \in M.vs : TRUE
      off == {k \in K : types[k] # t}
      erring == {k \in K : types[k] = 3}
      liars == off \cup IF cfg.fl = 1 THEN {k \in S : R[k] # v} ELSE {}
  IN
  CASE many -> Failed(R, <<"many">>)
    [] ~many /\ c = 0 -> Failed(R, <<"noc">>)
    [] ~many /\ c > 0 /\ K = {} -> Failed(R, <<"nor">>)
    [] OTHER ->
       IF ~AtLeast(T.n, c, q) THEN Insufficient(R, T.n, c)
       ELSE IF Cardinality(T.vs) > 1 THEN Failed(R, <<"tie">>)
       ELSE IF t = 3 THEN
         IF ~AtLeast(M.n, c, q) THEN Insufficient(R, M.n, c)
         ELSE [res |-> <<"err", v>>, liars |-> {}, errors |-> K]
       ELSE IF Cardinality(M.vs) > 1 THEN [res |-> <<"texec">>, liars |-> off, errors |-> erring]
       ELSE IF ~MoreThan(Cardinality(K \ liars), c, q) THEN Insufficient(R, Cardinality(K \ liars), c)
       ELSE [res |-> <<"val", v>>, liars |-> liars, errors |-> erring]

(* Who gets what: honest witnesses the reward and their collateral, those   *)
(* out of consensus with an error their collateral, the others nothing; the *)
(* requester what was not used.  When nobody was honest, nobody is to blame *)
(* (since the second version, but for not revealing).                       *)
Outcome(p, col, C, R, many) ==
  LET r == Result(R, Cardinality(C), p.q, many)
      K == DOMAIN R
      honest == K \ r.liars
      erred == r.liars \cap r.errors
      lied == C \ (honest \cup erred)
      share == IF cfg.wip >= 2 \/ honest = {} THEN 0 ELSE (col * Cardinality(lied)) \div Cardinality(honest)
      rest == IF cfg.wip >= 2 \/ honest = {} THEN 0 ELSE (col * Cardinality(lied)) % Cardinality(honest)
  IN  [res |-> r.res, honest |-> honest, K |-> K,
       ooc |-> C \ honest,
       err |-> IF honest = {} THEN K ELSE K \cap r.errors,
       pay |-> IF honest = {} THEN [k \in C |-> col]
               ELSE [k \in honest \cup erred |-> IF k \in honest THEN p.r + col + share ELSE col],
       rest |-> rest,
       change |-> p.r * (p.w - Cardinality(honest)) + p.f * (2 * p.w - Cardinality(K) - Cardinality(C))]

Div == IF cfg.main = 1 THEN 4 ELSE 2
Crowd(ep, w) == V2(ep) /\ w > Cardinality(Validators) \div Div
(* The state of a request whose tally is in a block: pending, or, when it   *)
(* asks for too many witnesses, of the same block.                          *)
Fresh0(b, i) == ndr + i - 1
NewCrowd(b) == {ndr + i - 1 : i \in {i \in 1..Len(b.drs) : Crowd(b.ep, b.drs[i].w)}}
Born(t, ep, u) == [own |-> u, ep |-> ep, p |-> [w |-> t.w, r |-> t.r, f |-> t.f, q |-> t.q, c |-> t.c],
                   stage |-> "commit", cr |-> 0, rr |-> 0, cms |-> None, rvs |-> None]
StateOf(b, d) == IF d \in DOMAIN drs THEN drs[d]
                 ELSE LET t == b.drs[d - ndr + 1] IN Born(t, b.ep, t.ins[1][2])
(* A pending request is resolved normally however many validators are left. *)
OutcomeOf(b, d) ==
  LET s == StateOf(b, d) IN
  Outcome(s.p, IF s.p.c = 0 THEN cfg.cmin ELSE s.p.c, DOMAIN s.cms, s.rvs, d \in NewCrowd(b))
SameResult(r, s) == IF r[1] = "insuff" /\ s[1] = "insuff" THEN r[2] * s[3] = s[2] * r[3] ELSE r = s
Tally(b, t) ==
  /\ t.d \in In("tally") \cup NewCrowd(b)
  /\ LET s == StateOf(b, t.d)
         o == OutcomeOf(b, t.d)
         pay == IF V2(s.ep) THEN None ELSE o.pay
         n == Cardinality(DOMAIN pay)
     IN
     /\ SameResult(t.res, o.res)
     /\ Unique(t.ooc) /\ ToSet(t.ooc) = o.ooc
     /\ Unique(t.err) /\ ToSet(t.err) = o.err
     /\ Len(t.outs) = n + (IF o.change > 0 THEN 1 ELSE 0)
     /\ o.change > 0 => t.outs[n + 1] = <<s.own, o.change, 0>>
     /\ {t.outs[i] : i \in 1..n} = {<<k, pay[k], 0>> : k \in DOMAIN pay}
(* Every request to be resolved is, once. *)
Tallies(b, s) ==
  LET T == [i \in 1..Len(b.tls) |-> b.tls[i].d] IN
  IF ~s.ok \/ ~(\A i \in 1..Len(b.tls) : Tally(b, b.tls[i])) \/ ~Unique(T) \/ ToSet(T) # In("tally") \cup NewCrowd(b) THEN No
  ELSE FoldLeft(LAMBDA a, t : [Move(b.ep, a, <<>>, t.outs) EXCEPT !.fee = @ + OutcomeOf(b, t.d).rest], s, b.tls)

-----------------------------------------------------------------------------
(* Requests that wait for commits keep room in the blocks. *)
Room(b) == LET D == In("commit") \ {b.cms[i].d : i \in 1..Len(b.cms)} IN
           FoldLeft(LAMBDA a, d : a + cfg.drw + drs[d].p.w * 636 + 100, 0, SetToSeq(D))
All(b, el) ==
  LET ep == b.ep
      INS(t) == t.ins  OUTS(t) == t.outs
      s1 == Under(Each(Ledger, b.vts, LAMBDA u, t : Vt(ep, u, t), VtFee, VtWeight, INS, OUTS, ep), cfg.maxvt)
      s2 == IF s1.ok THEN Commits(b, s1, el) ELSE No
      s3 == IF s2.ok /\ Reveals(b) THEN [s2 EXCEPT !.fee = @ + RevealFees(b), !.w = Room(b)] ELSE No
      s4 == IF b.drs = <<>> /\ s3.ok THEN [s3 EXCEPT !.w = 0]
            ELSE Under(Each(s3, b.drs, LAMBDA u, t : Dr(ep, u, t), DrFee, DrWeight, INS, OUTS, ep), cfg.maxdr)
      s5 == Tallies(b, s4)
      s6 == Under(Each(s5, b.sts, LAMBDA u, t : St(ep, u, t), StFee, StWeight, INS, LAMBDA t : t.chg, ep), StakeWeight)
      s7 == Under(Each(s6, b.uts, LAMBDA u, t : Ut(ep, t), LAMBDA u, t : t.fee, LAMBDA t : 153, LAMBDA t : <<>>,
                       LAMBDA t : <<<<t.to, t.val, t.l>>>>, ep), 5000)
  IN  s7
RoundOk(b, el) ==
  LET s == All(b, el) IN
  /\ s.ok /\ CommitsTogether(b) /\ Differ(b.sts) /\ Differ(b.uts) /\ MintOk(b, s.fee) /\ b.root = 0

-----------------------------------------------------------------------------
(* Stakes.  Adding coins moves both average epochs. *)
Mix(c, e, add, at) == IF c = 0 THEN at ELSE e + (add * (at - e)) \div (c + add)   \* the weighted mean
Grow(s, add, at) == [s EXCEPT !.c = @ + add, !.m = Mix(s.c, @, add, at), !.x = Mix(s.c, @, add, at)]
Key(S, v) == CHOOSE k \in DOMAIN S : k[1] = v
Has(S, v) == \E k \in DOMAIN S : k[1] = v
(* What is due to a validator that is gone is lost. *)
Give(S, v, c, at) == IF c = 0 \/ ~Has(S, v) THEN S ELSE [S EXCEPT ![Key(S, v)] = Grow(@, c, at)]
Take(S, v, c) == [S EXCEPT ![Key(S, v)].c = @ - c]
Witnessed(S, v, e) == IF Has(S, v) THEN [S EXCEPT ![Key(S, v)].x = e] ELSE S
(* The proposer, and whoever ranks above it, start again; the better the    *)
(* rank, the further in the future.                                         *)
ResetMining(S, v, at) ==
  LET Power(k) == S[k].c * Max2(0, at - S[k].m)
      better(a, b) == Power(a) > Power(b) \/ (Power(a) = Power(b) /\ (a[1] > b[1] \/ (a[1] = b[1] /\ a[2] > b[2])))
      r == SetToSortSeq(DOMAIN S, better)
      at_(k) == CHOOSE i \in 1..Len(r) : r[i] = k
  IN  IF ~Has(S, v) THEN S
      ELSE LET w == at_(Key(S, v)) IN [k \in DOMAIN S |-> IF at_(k) <= w THEN [S[k] EXCEPT !.m = at + 1 + w - at_(k)] ELSE S[k]]

Mine(ts, d(_)) == SelectSeq(ts, LAMBDA t : V2(d(t)))   \* those of requests of the second version
Over(S, seq, f(_, _)) == FoldLeft(f, S, seq)
(* quirk: recorded defect, witnesses who agree on an error are not rewarded *)
Rewards(b, fees, quirk) ==
  LET ep == b.ep
      EP(t) == StateOf(b, t.d).ep
      cms == Mine(b.cms, EP)  rvs == Mine(b.rvs, EP)  tls == Mine(b.tls, EP)
      F(ts) == Sum([i \in 1..Len(ts) |-> drs[ts[i].d].p.f])
      honest(t) == LET o == OutcomeOf(b, t.d) IN o.honest \ (IF quirk = 1 THEN o.err ELSE {})
      back(t) == LET o == OutcomeOf(b, t.d) IN o.err \ honest(t)
      liars(t) == LET o == OutcomeOf(b, t.d) IN o.ooc \ o.err
      p(t) == StateOf(b, t.d).p
      col(t) == IF p(t).c = 0 THEN cfg.cmin ELSE p(t).c
      s1 == Over(stk, cms, LAMBDA S, t : Take(S, t.k, Asked(t.d)))
      s2 == Give(Give(s1, b.miner, F(cms), ep), b.miner, F(rvs), ep)
      s3 == Over(s2, tls, LAMBDA S, t :
              Over(Over(S, SetToSeq(honest(t)), LAMBDA Z, k : Give(Z, k, col(t) + p(t).r, ep)),
                   SetToSeq(back(t)), LAMBDA Z, k : Give(Z, k, col(t), ep)))
      s4 == Give(s3, b.miner, fees + BlockReward, ep)
      s5 == ResetMining(s4, b.miner, ep)
      s6 == Over(s5, cms, LAMBDA S, t : Witnessed(S, t.k, ep + 1))
      s7 == Over(s6, tls, LAMBDA S, t : Over(S, SetToSeq(liars(t)), LAMBDA Z, k : Witnessed(Z, k, ep + 10)))
  IN  s7
Quirky(b) == {t \in ToSet(b.tls) : V2(StateOf(b, t.d).ep) /\ OutcomeOf(b, t.d).honest \cap OutcomeOf(b, t.d).err # {}}

StakedIn(S, b) ==
  LET add(m, t) == LET k == <<t.v, t.wd>>  s == IF k \in DOMAIN m THEN m[k] ELSE [c |-> 0, n |-> 0, m |-> 0, x |-> 0]
                   IN  With(m, k, [Grow(s, t.val, b.ep) EXCEPT !.n = b.ep])
      rem(m, t) == LET k == <<t.v, t.to>>  c == m[k].c - t.val - t.fee
                   IN  IF c = 0 THEN [j \in DOMAIN m \ {k} |-> m[j]] ELSE [m EXCEPT ![k].c = c, ![k].n = b.ep]
  IN  FoldLeft(rem, FoldLeft(add, S, b.sts), b.uts)

(* Requests: what the block brings, and then the end of the epoch. *)
Step(s, tm) ==
   CASE s.stage = "commit" /\ s.cms = None /\ ~tm /\ s.cr <= cfg.extra -> [s EXCEPT !.cr = @ + 1]
     [] s.stage = "commit" /\ s.cms = None /\ (tm \/ s.cr > cfg.extra)  -> [s EXCEPT !.stage = "tally"]
     [] s.stage = "commit" /\ s.cms # None                             -> [s EXCEPT !.stage = "reveal", !.rr = 1]
     [] s.stage = "reveal" /\ Cardinality(DOMAIN s.rvs) < s.p.w /\ s.rr <= cfg.extra -> [s EXCEPT !.rr = @ + 1]
     [] s.stage = "reveal" /\ ~(Cardinality(DOMAIN s.rvs) < s.p.w /\ s.rr <= cfg.extra) -> [s EXCEPT !.stage = "tally"]
     [] s.stage = "tally" -> s
Requests(b) ==
  LET done == {b.tls[i].d : i \in 1..Len(b.tls)}
      new == {ndr + i - 1 : i \in 1..Len(b.drs)} \ done
      s1 == [d \in (DOMAIN drs \ done) \cup new |-> StateOf(b, d)]
      s2 == FoldLeft(LAMBDA D, t : [D EXCEPT ![t.d].cms = With(@, t.k, t.val)], s1, b.cms)
      s3 == FoldLeft(LAMBDA D, t : [D EXCEPT ![t.d].rvs = With(@, t.k, t.val)], s2, b.rvs)
  IN  [d \in DOMAIN s3 |-> Step(s3[d], Crowd(b.ep, s3[d].p.w))]

Coins(S) == FoldLeft(LAMBDA a, k : a + S[k].c, 0, SetToSeq(DOMAIN S))
Outputs(u) == FoldLeft(LAMBDA a, k : a + u[k].v, 0, SetToSeq(DOMAIN u))
(* What a request holds: the cost, less what was paid, plus collateral. *)
Held(s) == LET c == Cardinality(DOMAIN s.cms)  r == Cardinality(DOMAIN s.rvs) IN
           s.p.w * (s.p.r + 2 * s.p.f) - (c + r) * s.p.f + c * (IF s.p.c = 0 THEN cfg.cmin ELSE s.p.c)
HeldAll(D) == FoldLeft(LAMBDA a, d : a + Held(D[d]), 0, SetToSeq(DOMAIN D))

Refuse == ok' = FALSE /\ UNCHANGED <<cfg, utxo, stk, next, bn, book, drs, ndr>>
Consolidate(b, el) ==
  IF ~RoundOk(b, el) THEN Refuse
  ELSE LET s == All(b, el)
           f == Move(b.ep, s, <<>>, b.mint.outs)
           EP(t) == StateOf(b, t.d).ep
           ofRequests == Sum([i \in 1..Len(b.cms) |-> drs[b.cms[i].d].p.f]) + RevealFees(b)
                         + Sum([i \in 1..Len(b.tls) |-> OutcomeOf(b, b.tls[i].d).rest])
       IN \E quirk \in IF Lenient /\ Quirky(b) # {} THEN {0, 1} ELSE {0} :
       LET S == IF V2(b.ep) THEN Rewards(b, s.fee - ofRequests, quirk) ELSE stk
           E == StakedIn(S, b)
           D == Requests(b)
           before == Outputs(utxo) + Coins(stk) + HeldAll(drs) + (IF V2(b.ep) THEN BlockReward ELSE Reward(b.ep))
           after == Outputs(f.u) + Coins(E) + HeldAll(D)
       IN
       /\ ok' = TRUE /\ utxo' = f.u /\ next' = f.nx /\ bn' = bn + 1
       /\ stk' = E /\ drs' = D /\ ndr' = ndr + Len(b.drs)
       (* burnt: collateral of liars, and what is due to nobody *)
       /\ book' = [minted |-> book.minted + (IF V2(b.ep) THEN BlockReward ELSE Reward(b.ep)),
                   locked |-> HeldAll(D), fees |-> book.fees + before - after]
       /\ cfg' = cfg

Listed(f) == Sorted({<<k, f[k]>> : k \in DOMAIN f})
RoundObs ==
  [ok |-> ok,
   utxo |-> Sorted({<<k, utxo[k].o, utxo[k].v, utxo[k].l, utxo[k].b>> : k \in DOMAIN utxo}),
   stakes |-> Sorted({<<k[1], k[2], stk[k].c, stk[k].n, stk[k].m, stk[k].x>> : k \in DOMAIN stk}),
   drs |-> Sorted({<<d, drs[d].own, drs[d].stage, drs[d].cr, drs[d].rr, Listed(drs[d].cms), Listed(drs[d].rvs)>> : d \in DOMAIN drs}),
   own |-> SetToSortSeq({k \in DOMAIN utxo : utxo[k].o = 1}, <)]

RoundsInit(c) ==
  /\ cfg = [c EXCEPT !.utxo = <<>>]
  /\ utxo = [i \in 1..Len(c.utxo) |-> [o |-> c.utxo[i][1], v |-> c.utxo[i][2], l |-> c.utxo[i][3], b |-> c.utxo[i][4]]]
  /\ stk = [k \in {<<c.stakes[i][1], c.stakes[i][2]>> : i \in 1..Len(c.stakes)} |->
              LET i == CHOOSE j \in 1..Len(c.stakes) : <<c.stakes[j][1], c.stakes[j][2]>> = k
                  e == c.stakes[i][4]
              IN  [c |-> c.stakes[i][3], n |-> e, m |-> e, x |-> e]]
  /\ next = Len(c.utxo) + 1 /\ bn = c.bn /\ ok = TRUE
  /\ drs = None /\ ndr = 1
  /\ book = [minted |-> Outputs(utxo) + Coins(stk), locked |-> 0, fees |-> 0]

(* Coins appear only as rewards of blocks: what is missing was burnt, and   *)
(* never comes back.                                                        *)
RoundsConserved == /\ Outputs(utxo) + Coins(stk) + HeldAll(drs) + book.fees = book.minted
                   /\ book.fees >= 0
                   /\ \A d \in DOMAIN drs : Held(drs[d]) >= 0
RoundsSane == /\ \A d \in DOMAIN drs : DOMAIN drs[d].rvs \subseteq DOMAIN drs[d].cms
              /\ \A d \in DOMAIN drs : \A k \in DOMAIN drs[d].rvs : drs[d].rvs[k] = drs[d].cms[k]
              /\ \A d \in DOMAIN drs : Cardinality(DOMAIN drs[d].cms) \in {0, drs[d].p.w}
=============================================================================
