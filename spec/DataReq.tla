------------------------------ MODULE DataReq -------------------------------
(***************************************************************************)
(* The life of data requests (data_structures/src/data_request.rs and       *)
(* DataRequestState): commit, reveal and tally stages, extra rounds, own    *)
(* reveals to be sent, what is locked, and what is finished.                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

VARIABLES
  extra,      \* extra commit and reveal rounds
  drs,        \* id -> [stage, ep, cr, rr, cms, rvs, p]: p = parameters [n, reward, fee, col]
  own,        \* id -> identity: reveals of this node that wait for the reveal stage
  done,       \* finished requests, not stored yet: sequence of [id, cr, rr, cms, rvs]
  res

dqVars == <<extra, drs, own, done, res>>
None == [k \in {} |-> 0]
Without(f, S) == [k \in DOMAIN f \ S |-> f[k]]
With(f, k, x) == [j \in DOMAIN f \cup {k} |-> IF j = k THEN x ELSE f[j]]
In(st) == {d \in DOMAIN drs : drs[d].stage = st}

DqInit(x) == extra = x /\ drs = None /\ own = None /\ done = <<>> /\ res = "ok"
Request(d, ep, p) ==
   /\ drs' = With(drs, d, [stage |-> "commit", ep |-> ep, cr |-> 0, rr |-> 0, cms |-> {}, rvs |-> {}, p |-> p])
   /\ res' = "ok" /\ UNCHANGED <<extra, own, done>>
Commit(d, who) ==
   LET ok == d \in DOMAIN drs /\ drs[d].stage = "commit"
   IN  /\ drs' = IF ok THEN [drs EXCEPT ![d].cms = @ \cup {who}] ELSE drs
       /\ res' = (IF ok THEN "ok" ELSE "refused") /\ UNCHANGED <<extra, own, done>>
Reveal(d, who) ==
   LET ok == d \in DOMAIN drs /\ drs[d].stage = "reveal"
   IN  /\ drs' = IF ok THEN [drs EXCEPT ![d].rvs = @ \cup {who}] ELSE drs
       /\ res' = (IF ok THEN "ok" ELSE "refused") /\ UNCHANGED <<extra, own, done>>
(* Only a request whose time has come is resolved; a refused tally changes nothing. *)
Tally(d) ==
   LET ok == d \in DOMAIN drs /\ drs[d].stage = "tally"
   IN  /\ drs' = IF ok THEN Without(drs, {d}) ELSE drs
       /\ done' = IF ok THEN Append(done, [id |-> d, cr |-> drs[d].cr, rr |-> drs[d].rr, cms |-> drs[d].cms, rvs |-> drs[d].rvs]) ELSE done
       /\ res' = (IF ok THEN "ok" ELSE "refused") /\ UNCHANGED <<extra, own>>
Keep(d, who) == own' = With(own, d, who) /\ res' = "ok" /\ UNCHANGED <<extra, drs, done>>

(* After version 2, a request for more than a part of the validators is resolved at once. *)
TooMany(p, vals, div, v2) == v2 /\ p.n > vals \div div
Step(s, tm) ==
   CASE s.stage = "commit" /\ s.cms = {} /\ ~ tm /\ s.cr <= extra -> [s EXCEPT !.cr = @ + 1]
     [] s.stage = "commit" /\ s.cms = {} /\ (tm \/ s.cr > extra)  -> [s EXCEPT !.stage = "tally"]
     [] s.stage = "commit" /\ s.cms # {}                          -> [s EXCEPT !.stage = "reveal", !.rr = 1]
     [] s.stage = "reveal" /\ Cardinality(s.rvs) < s.p.n /\ s.rr <= extra -> [s EXCEPT !.rr = @ + 1]
     [] s.stage = "reveal" /\ ~ (Cardinality(s.rvs) < s.p.n /\ s.rr <= extra) -> [s EXCEPT !.stage = "tally"]
     [] s.stage = "tally" -> s
(* The end of an epoch.  Returns the own reveals that have to be sent. *)
NewEpoch(vals, div, v2) ==
   LET after == [d \in DOMAIN drs |-> Step(drs[d], TooMany(drs[d].p, vals, div, v2))]
   IN  /\ drs' = after
       /\ own' = Without(own, {d \in DOMAIN after : after[d].stage = "tally"})
       /\ res' = {d \in DOMAIN own \cap DOMAIN after : after[d].stage = "reveal" /\ own[d] \in after[d].cms \ after[d].rvs}
       /\ UNCHANGED <<extra, done>>
Finished == done' = <<>> /\ res' = "ok" /\ UNCHANGED <<extra, drs, own>>
Reload == res' = "ok" /\ UNCHANGED <<extra, drs, own, done>>

------------------------------------------------------------------------------
Pow2(n) == IF n <= 0 THEN 1 ELSE IF n >= 16 THEN 65535 ELSE 2 ^ n
Min(a, b) == IF a < b THEN a ELSE b
Backup(s) == (IF s.p.n > 0 /\ Pow2(s.cr - 1) > 65535 \div s.p.n THEN 65535 ELSE s.p.n * Pow2(s.cr - 1)) \div 2
Locked(s, mincol) ==
   LET total == s.p.n * (s.p.reward + 2 * s.p.fee)
       col == IF s.p.col = 0 THEN mincol ELSE s.p.col
       c == Cardinality(s.cms)  r == Cardinality(s.rvs)
   IN  IF s.stage = "commit" THEN total ELSE total + c * col - c * s.p.fee - r * s.p.fee
RECURSIVE SumLocked(_, _)
SumLocked(D, mincol) == IF D = {} THEN 0 ELSE LET d == CHOOSE d \in D : TRUE IN Locked(drs[d], mincol) + SumLocked(D \ {d}, mincol)

(* what can be observed: st = states, upto = requests open for commits by an epoch, all = what a block has to resolve *)
Obs(mincol, eps, vals, div, v2at) ==
  [st |-> {<<d, drs[d].stage, drs[d].cr, drs[d].rr, drs[d].cms, drs[d].rvs, Backup(drs[d])>> : d \in DOMAIN drs},
   upto |-> {<<e, {d \in In("commit") : drs[d].ep <= e}>> : e \in eps},
   ready |-> In("tally"),
   all |-> {<<d, drs[d].rvs>> : d \in {d \in In("tally") : ~ TooMany(drs[d].p, vals, div, drs[d].ep >= v2at)}},
   locked |-> SumLocked(DOMAIN drs, mincol)]
DqInv == \A d \in DOMAIN drs :
   LET s == drs[d] IN
   /\ s.cr <= extra + 1 /\ s.rr <= extra + 1
   /\ s.stage = "commit" => s.rr = 0 /\ s.rvs = {}
   /\ s.stage = "reveal" => s.rr > 0 /\ s.cms # {}
(* stages only go forward, what is in is never forgotten, and nothing but a tally ends a request *)
Rank(s) == CASE s = "commit" -> 0 [] s = "reveal" -> 1 [] s = "tally" -> 2
Forward == [][\A d \in DOMAIN drs \cap DOMAIN drs' : (Rank(drs'[d].stage) >= Rank(drs[d].stage) /\ drs[d].cms \subseteq drs'[d].cms /\ drs[d].rvs \subseteq drs'[d].rvs)]_dqVars
OnlyTally == [][\A d \in DOMAIN drs : d \in DOMAIN drs' \/ drs[d].stage = "tally"]_dqVars
(* commits are only taken before, reveals only after the commit stage *)
TakenIn(a, b) == (a.cms = b.cms \/ a.stage = "commit") /\ (a.rvs = b.rvs \/ a.stage = "reveal")
Separate == [][\A d \in DOMAIN drs \cap DOMAIN drs' : TakenIn(drs[d], drs'[d])]_dqVars
=============================================================================
