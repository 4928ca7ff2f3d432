------------------------------- MODULE Bridge -------------------------------
(* The bridge between a WitnetOracle contract on Ethereum and Witnet         *)
(* (bridges/centralized-ethereum/src/actors).  Queries are posted to the     *)
(* contract; one actor finds them, one sends them to Witnet as data          *)
(* requests, one waits for what comes out of them, one reports that back.    *)
(* They share a database, which survives a crash; nothing else does.         *)
(*                                                                           *)
(* Every call to the contract or to the node is a step of its own, and may   *)
(* be answered, refused, cut off, or (a transaction) be reverted, or not be  *)
(* heard of again, having happened or not.  `pick' and `order' are what the  *)
(* implementation is free to choose: which of the requests comes next, and   *)
(* in which order the unacceptable ones were looked at.                      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt
VARIABLES b, done
brVars == <<b, done>>
MinCollateral == 1000
MaxFee == 100
MaxValue == 10000
MaxSize == 40      \* in hexadecimal digits
Timeout == 100
Ratio == 125
Malformed == "d8278118e0"
PoorIncentives == "d8278118e1"
Oversized == "d8278118e2"
Up(x, y) == (x + y - 1) \div y
Larger(x, y) == IF x > y THEN x ELSE y
Smaller(x, y) == IF x < y THEN x ELSE y
(* ------------------------------------------------------ what a request is *)
Reward(k) == IF k.c < MinCollateral THEN Larger(k.r, Up(MinCollateral, Up(IF k.c = 0 THEN MinCollateral ELSE k.c, k.r))) ELSE k.r
Collateral(k) == Larger(k.c, MinCollateral)
(* "" for one that can be relayed, or what is reported at once *)
Wrong(k, id) ==
  IF \/ k.form # "ok" \/ k.w < 1 \/ k.r < 1 \/ k.pct < 51 \/ k.pct > 99
     \/ Up(IF k.c = 0 THEN MinCollateral ELSE k.c, k.r) > Ratio THEN Malformed
  ELSE IF (Reward(k) + 2 * id) * k.w > MaxValue THEN PoorIncentives ELSE ""
Relayed(k, id) == [q |-> id, collateral |-> Collateral(k), reward |-> Reward(k), witnesses |-> k.w, fee |-> Smaller(Reward(k), MaxFee)]
(* when the commitments of a request were made: 45 s an epoch, and 20 s from epoch 100 on *)
Moment(epoch, round) == LET e == epoch + round + 1 IN IF e >= 100 THEN 1000 + 4500 + (e - 100) * 20 ELSE 1000 + e * 45
(* ----------------------------------------------------------- the database *)
Settled == {"Finished", "Dismissed"}
Known(s) == DOMAIN s.db
In(s, st) == {i \in Known(s) : s.db[i].st = st}
Row(st, tx, ts) == [st |-> st, tx |-> tx, ts |-> ts]
Top(s, i) == Larger(s.max, i)
Write(s, i, row) == [s EXCEPT !.db = (i :> row) @@ @, !.max = Top(s, i)]
(* what is settled stays so *)
Note(s, i, row) == IF i \in Known(s) /\ s.db[i].st \in Settled THEN s ELSE Write(s, i, row)
Settle(s, i, st) == Write(s, i, IF i \in Known(s) THEN [s.db[i] EXCEPT !.st = st] ELSE Row(st, 0, 0))
(* ------------------------------------------------------------- the reporter *)
Short(r) == IF r.len > MaxSize THEN [r EXCEPT !.res = Oversized] ELSE r
Told(r) == [q |-> r.q, ts |-> r.ts, tx |-> r.tx, res |-> r.res]
Deliver(s, rs) ==
  LET keep == SelectSeq(rs, LAMBDA r : r.q \notin s.pend)
      ids == {keep[i].q : i \in 1..Len(keep)}
  IN  IF keep = <<>> THEN s
      ELSE [s EXCEPT !.pend = @ \cup ids, !.rep = Append(@, [pc |-> "balance", ids |-> ids, rs |-> [i \in 1..Len(keep) |-> Told(Short(keep[i]))], cur |-> <<>>, stack |-> <<>>, out |-> <<>>])]
NextCall(t) == IF t.out = <<>> THEN [t EXCEPT !.pc = "final", !.cur = <<>>] ELSE [t EXCEPT !.pc = "call", !.cur = Head(t.out), !.out = Tail(t.out)]
NextStack(t) == IF t.stack = <<>> THEN NextCall(t) ELSE [t EXCEPT !.pc = "est", !.cur = Last(t.stack), !.stack = Front(t.stack)]
Halve(t) ==
  LET n == Len(t.cur) h == n \div 2 IN
  NextStack(IF n <= 1 THEN t ELSE [t EXCEPT !.stack = @ \o <<SubSeq(t.cur, 1, h), SubSeq(t.cur, h + 1, n)>>])
(* the contract takes what it still waits for, and says of the others that it does not *)
Waits(s, i) == i \in 1..Len(s.qs) /\ s.qs[i].st = 1
Taken(s, rs) == [s EXCEPT !.qs = [i \in 1..Len(s.qs) |-> IF Waits(s, i) /\ \E j \in 1..Len(rs) : rs[j].q = i
                                                           THEN [s.qs[i] EXCEPT !.st = 2, !.res = <<rs[CHOOSE j \in 1..Len(rs) : rs[j].q = i]>>] ELSE s.qs[i]]]
Put(s, n, t) == [s EXCEPT !.rep[n] = t]
Over(s, n) == [s EXCEPT !.pend = @ \ s.rep[n].ids, !.rep = SubSeq(@, 1, n - 1) \o SubSeq(@, n + 1, Len(@))]
Rep(s, n, how) ==
  LET t == s.rep[n] ok == how = "ok" IN
  CASE t.pc = "balance" -> IF ok THEN Put(s, n, [t EXCEPT !.pc = "gas"]) ELSE Over(s, n)
    [] t.pc = "gas" -> IF ok THEN Put(s, n, [t EXCEPT !.pc = "est", !.cur = t.rs]) ELSE Over(s, n)
    [] t.pc = "est" -> Put(s, n, IF ok THEN [t EXCEPT !.pc = "earn"] ELSE Halve(t))
    [] t.pc = "earn" -> Put(s, n, IF ok THEN NextStack([t EXCEPT !.out = Append(@, t.cur)]) ELSE Halve(t))
    [] t.pc = "call" ->
         LET s1 == IF how \in {"ok", "mined"} THEN Taken(s, t.cur) ELSE s
             s2 == IF ok THEN FoldLeft(LAMBDA a, r : Settle(a, r.q, IF Waits(s, r.q) THEN "Finished" ELSE "Dismissed"), s1, t.cur) ELSE s1
         IN  Put(s2, n, NextCall(t))
    [] t.pc = "final" -> Over(s, n)
(* -------------------------------------------------- the one who finds queries *)
EthNext(s, last) ==
  LET e == s.eth IN
  IF last + 1 < e.next
    THEN [s EXCEPT !.eth = [e EXCEPT !.pc = "status", !.last = last, !.ids = [i \in 1..(Smaller(e.next, last + s.batch + 1) - last - 1) |-> last + i]]]
    ELSE [s EXCEPT !.eth.pc = "timer", !.eth.ids = <<>>]
Found(s, posted) ==
  LET e == s.eth
      s1 == FoldLeft(LAMBDA a, i : IF e.sts[i] = 1 THEN a ELSE Settle(a, e.ids[i], IF e.sts[i] = 0 THEN "Dismissed" ELSE "Finished"), s, [i \in 1..Len(e.ids) |-> i])
      s2 == FoldLeft(LAMBDA a, q : Note(a, q, Row("New", 0, 0)), s1, posted)
  IN  EthNext(s2, e.last + s.batch)
Eth(s, how) ==
  LET e == s.eth ok == how = "ok" off == [s EXCEPT !.eth.pc = "timer", !.eth.ids = <<>>] IN
  CASE e.pc = "timer" -> [s EXCEPT !.eth.pc = "next"]
    [] ~ok -> off      \* it is tried again from where it was
    [] e.pc = "next" -> EthNext([s EXCEPT !.eth.next = Len(s.qs) + 1], Larger(s.max, s.skip))
    [] e.pc = "status" ->
         LET sts == [i \in 1..Len(e.ids) |-> IF e.ids[i] \in 1..Len(s.qs) THEN s.qs[e.ids[i]].st ELSE 0]
             posted == SelectSeq(e.ids, LAMBDA q : sts[q - e.last] = 1)
             s1 == [s EXCEPT !.eth.sts = sts]
         IN  IF posted = <<>> THEN Found(s1, <<>>) ELSE [s1 EXCEPT !.eth.pc = "extract", !.eth.posted = posted]
    [] e.pc = "extract" -> Found(s, e.posted)
(* ------------------------------------------------- the one who sends requests *)
Bad(s, i) == Wrong(s.qs[i].k, i) # ""
Code(s, i, ts) == [q |-> i, ts |-> ts, tx |-> 0, res |-> Wrong(s.qs[i].k, i), len |-> 0]
Refusals(s, order) == [i \in 1..Len(order) |-> Code(s, order[i][1], order[i][2])]
Chosen(s, order, todo) == /\ \A i \in 1..Len(order) : order[i][1] \in todo /\ Bad(s, order[i][1]) /\ order[i][2] \in s.snd.times
                          /\ \A i, j \in 1..Len(order) : i # j => order[i][1] # order[j][1]
SndOff(s) == [s EXCEPT !.snd.pc = "timer", !.snd.cur = 0, !.snd.todo = {}]
SndNext(s, pick, order) ==
  LET bad == {i \in s.snd.todo : Bad(s, i)} good == s.snd.todo \ bad s1 == [s EXCEPT !.snd.times = @ \cup {s.now}] IN
  IF good # {} THEN {x \in {[s1 EXCEPT !.snd.pc = "send", !.snd.cur = pick]} : pick \in good /\ order = <<>>}
  ELSE {x \in {SndOff(Deliver(s1, Refusals(s1, order)))} : Chosen(s1, order, bad) /\ Len(order) = Cardinality(bad) /\ pick = 0}
Snapshot(s, pick, order) == SndNext([s EXCEPT !.snd.todo = In(s, "New"), !.snd.times = {}], pick, order)
Snd(s, how, pick, order) ==
  LET a == s.snd IN
  CASE a.pc = "timer" -> IF a.known THEN Snapshot(s, pick, order) ELSE {x \in {[s EXCEPT !.snd.pc = "pkh"]} : pick = 0 /\ order = <<>>}
    [] a.pc = "pkh" -> Snapshot([s EXCEPT !.snd.known = how = "ok"], pick, order)
    [] a.pc = "send" ->
         IF how = "ok"
           THEN LET q == a.cur
                    s1 == [s EXCEPT !.sent = Append(@, [told |-> Relayed(s.qs[q].k, q), at |-> s.now, mined |-> FALSE, epoch |-> 0, round |-> 0, res |-> "", len |-> 0])]
                    s2 == Note(s1, q, Row("Pending", Len(s1.sent), s.now))
                IN  SndNext([s2 EXCEPT !.snd.todo = @ \ {q}], pick, order)
         ELSE IF how = "unreachable" THEN {x \in {SndOff(Deliver(s, Refusals(s, order)))} : Chosen(s, order, a.todo) /\ pick = 0}
         ELSE {x \in {SndOff(s)} : pick = 0 /\ order = <<>>}
(* -------------------------------------------------- the one who waits for them *)
Wit0(s) == [s EXCEPT !.wit.todo = {[q |-> i, tx |-> s.db[i].tx, ts |-> s.db[i].ts] : i \in In(s, "Pending")}, !.wit.now = s.now, !.wit.reports = <<>>]
WitOff(s) == [s EXCEPT !.wit.pc = "timer", !.wit.todo = {}, !.wit.reports = <<>>]
WitEnd(s) == WitOff(Deliver(s, s.wit.reports))
Handed(s) == [i \in 1..Len(s.wit.reports) |-> <<s.wit.reports[i].q, s.wit.reports[i].ts>>]
WitNext(s, pick, order) ==
  IF s.wit.todo = {} THEN {x \in {WitEnd(s)} : pick = 0 /\ order = Handed(s)}
  ELSE {[s EXCEPT !.wit.pc = "report", !.wit.cur = r, !.wit.todo = @ \ {r}] : r \in {y \in s.wit.todo : y.tx = pick /\ order = <<>>}}
WitStart(s, pick, order) ==
  LET s1 == Wit0(s) IN
  {x \in {IF s1.wit.todo = {} THEN WitEnd(s1) ELSE [s1 EXCEPT !.wit.pc = "proto"]} : pick = 0 /\ order = <<>>}
Late(s) == LET r == s.wit.cur IN IF s.wit.now - r.ts >= Timeout THEN Note(s, r.q, Row("New", 0, 0)) ELSE s
Wit(s, how, pick, order) ==
  LET a == s.wit ok == how = "ok" idle == pick = 0 /\ order = <<>> IN
  CASE a.pc = "timer" -> IF a.known THEN WitStart(s, pick, order) ELSE {x \in {[s EXCEPT !.wit.pc = "cc"]} : idle}
    [] a.pc = "cc" -> IF ok THEN WitStart([s EXCEPT !.wit.known = TRUE], pick, order) ELSE {x \in {WitOff(s)} : idle}
    [] a.pc = "proto" -> IF ok THEN WitNext(s, pick, order) ELSE {x \in {WitOff(s)} : idle}
    [] a.pc = "report" ->
         IF how = "unreachable" THEN {x \in {WitEnd(s)} : pick = 0 /\ order = Handed(s)}
         ELSE IF ok /\ s.sent[a.cur.tx].len > 0
           THEN {x \in {[s EXCEPT !.wit.pc = "block", !.wit.round = s.sent[a.cur.tx].round, !.wit.res = s.sent[a.cur.tx].res, !.wit.len = s.sent[a.cur.tx].len]} : idle}
         ELSE WitNext(Late(s), pick, order)
    [] a.pc = "block" ->
         WitNext(IF ok THEN [s EXCEPT !.wit.reports = Append(@, [q |-> a.cur.q, ts |-> Moment(s.sent[a.cur.tx].epoch, a.round), tx |-> a.cur.tx, res |-> a.res, len |-> a.len])] ELSE s, pick, order)
(* -------------------------------------------------------------------- steps *)
Asleep == [pc |-> "next", next |-> 0, last |-> 0, ids |-> <<>>, sts |-> <<>>, posted |-> <<>>]
Start(s) == [s EXCEPT !.eth = Asleep, !.snd = [pc |-> "pkh", known |-> FALSE, todo |-> {}, cur |-> 0, times |-> {}],
                      !.wit = [pc |-> "cc", known |-> FALSE, todo |-> {}, cur |-> [q |-> 0, tx |-> 0, ts |-> 0], now |-> 0, reports |-> <<>>, round |-> 0, res |-> "", len |-> 0],
                      !.rep = <<>>, !.pend = {}]
BridgeInit(c) ==
  /\ b = Start([batch |-> c.batch, skip |-> c.skip, qs |-> <<>>, sent |-> <<>>, now |-> 0, db |-> <<>>, max |-> 0, eth |-> 0, snd |-> 0, wit |-> 0, rep |-> 0, pend |-> 0])
  /\ done = TRUE
Post(k) == b' = [b EXCEPT !.qs = Append(@, [k |-> k, st |-> 1, res |-> <<>>])] /\ done' = TRUE
Elsewhere(q, to) == b' = (IF q \in 1..Len(b.qs) THEN [b EXCEPT !.qs[q].st = to] ELSE b) /\ done' = TRUE
Mine(n, res, len, epoch, round) ==
  /\ b' = IF n \in 1..Len(b.sent) /\ b.sent[n].len = 0 THEN [b EXCEPT !.sent[n] = [@ EXCEPT !.mined = TRUE, !.epoch = epoch, !.round = round, !.res = res, !.len = len]] ELSE b
  /\ done' = TRUE
Time(n) == b' = [b EXCEPT !.now = @ + n] /\ done' = TRUE
Crash == b' = Start(b) /\ done' = TRUE
(* only a transaction can be reverted, or not be heard of *)
How(s, a, i, how) == IF how \in {"reverted", "expired", "mined"} /\ ~(a = "rep" /\ s.rep[i].pc = "call") THEN "refused" ELSE how
Go(a, i, how, pick, order) ==
  CASE a = "eth" -> b' = Eth(b, How(b, a, i, how)) /\ done' = TRUE
    [] a = "send" -> b' \in Snd(b, How(b, a, i, how), pick, order) /\ done' = TRUE
    [] a = "wit" -> b' \in Wit(b, How(b, a, i, how), pick, order) /\ done' = TRUE
    [] a = "rep" -> IF i \in 1..Len(b.rep) THEN b' = Rep(b, i, How(b, a, i, how)) /\ done' = TRUE ELSE b' = b /\ done' = FALSE
(* ------------------------------------------------------------ what is seen *)
Call(m, d) == [m |-> m, d |-> d]
None == [ids |-> <<>>]
Ids(rs) == [i \in 1..Len(rs) |-> rs[i].q]
EthCalls == CASE b.eth.pc = "timer" -> <<>> [] b.eth.pc = "next" -> <<Call("getNextQueryId", None)>>
              [] b.eth.pc = "status" -> <<Call("getQueryStatusBatch", [ids |-> b.eth.ids])>>
              [] b.eth.pc = "extract" -> <<Call("extractWitnetDataRequests", [ids |-> b.eth.posted])>>
SndCalls == CASE b.snd.pc = "timer" -> <<>> [] b.snd.pc = "pkh" -> <<Call("getPkh", None)>>
              [] b.snd.pc = "send" -> <<Call("sendRequest", Relayed(b.qs[b.snd.cur].k, b.snd.cur))>>
WitCalls == CASE b.wit.pc = "timer" -> <<>> [] b.wit.pc = "cc" -> <<Call("getConsensusConstants", None)>> [] b.wit.pc = "proto" -> <<Call("protocol", None)>>
              [] b.wit.pc = "report" -> <<Call("dataRequestReport", [tx |-> b.wit.cur.tx])>> [] b.wit.pc = "block" -> <<Call("getBlock", [tx |-> b.wit.cur.tx])>>
RepCall(t) == CASE t.pc = "balance" -> Call("balance", None) [] t.pc = "final" -> Call("balance", None) [] t.pc = "gas" -> Call("gas_price", None)
                [] t.pc = "est" -> Call("estimate_gas", [reports |-> t.cur]) [] t.pc = "earn" -> Call("estimateReportEarnings", [ids |-> Ids(t.cur)])
                [] t.pc = "call" -> Call("reportResultBatch", [reports |-> t.cur])
RepCalls == [i \in 1..Len(b.rep) |-> RepCall(b.rep[i])]
Timers == SelectSeq(<<"eth", "send", "wit">>, LAMBDA a : CASE a = "eth" -> b.eth.pc = "timer" [] a = "send" -> b.snd.pc = "timer" [] a = "wit" -> b.wit.pc = "timer")
Sorted(S) == SetToSortSeq(S, LAMBDA x, y : x < y)
Mem == [new |-> Sorted(In(b, "New")), pending |-> [i \in 1..Cardinality(In(b, "Pending")) |-> LET q == Sorted(In(b, "Pending"))[i] IN <<q, b.db[q].tx, b.db[q].ts>>],
        counts |-> <<Cardinality(In(b, "New")), Cardinality(In(b, "Pending")), Cardinality(In(b, "Finished")), Cardinality(In(b, "Dismissed"))>>, max |-> b.max]
Chain == [i \in 1..Len(b.qs) |-> [st |-> b.qs[i].st, res |-> b.qs[i].res]]
Sent == [i \in 1..Len(b.sent) |-> b.sent[i].told]
(* --------------------------------------------------------------- guarantees *)
(* no query is left behind *)
NoneLost == \A i \in 1..b.max : i > b.skip => i \in Known(b)
NoneElse == \A i \in Known(b) : i <= b.max /\ i \in 1..Len(b.qs)
(* nothing is given up or done with that the contract still waits for *)
Answered == \A i \in Known(b) : b.db[i].st \in Settled => b.qs[i].st # 1
(* what is waited for is a request made for that very query *)
Own == \A i \in In(b, "Pending") : b.db[i].tx \in 1..Len(b.sent) /\ b.sent[b.db[i].tx].told.q = i /\ b.db[i].ts = b.sent[b.db[i].tx].at
(* what the contract was told is what came out of a request for it, or what is wrong with it *)
Honest == \A i \in 1..Len(b.qs) : b.qs[i].res # <<>> =>
            LET r == b.qs[i].res[1] IN
            /\ r.q = i
            /\ IF r.tx = 0 THEN Bad(b, i) /\ r.res = Wrong(b.qs[i].k, i)
               ELSE ~Bad(b, i) /\ b.sent[r.tx].told.q = i /\ b.sent[r.tx].mined /\ r.res = (IF b.sent[r.tx].len > MaxSize THEN Oversized ELSE b.sent[r.tx].res)
                    /\ r.ts = Moment(b.sent[r.tx].epoch, b.sent[r.tx].round)
(* one is not paid for twice, unless it was long without an answer *)
Patient == \A i, j \in 1..Len(b.sent) : i < j /\ b.sent[i].told.q = b.sent[j].told.q => b.sent[j].at - b.sent[i].at >= Timeout
(* one is not reported and sent again by one look *)
OneOrOther == b.wit.pc # "timer" => \A i \in 1..Len(b.wit.reports) : b.db[b.wit.reports[i].q].st # "New"
(* nobody pays less, or puts up less, than was asked *)
Generous == \A i \in 1..Len(b.sent) : LET t == b.sent[i].told k == b.qs[t.q].k IN t.reward >= k.r /\ t.collateral >= k.c /\ t.collateral >= MinCollateral /\ (t.reward + 2 * t.q) * t.witnesses <= MaxValue
BridgeInv == NoneLost /\ NoneElse /\ Answered /\ Own /\ Honest /\ Patient /\ OneOrOther /\ Generous
Final == [][\A i \in Known(b) : i \in Known(b)' /\ (b.db[i].st \in Settled => b'.db[i].st \in Settled)]_b
=============================================================================
