----------------------------- MODULE MC_Bridge -----------------------------
(* A few queries, and every interleaving of the four actors, with as many    *)
(* faults, late answers, other reporters and crashes as are allowed.  What   *)
(* happened is emitted as a script for the real actors.                      *)
EXTENDS Bridge, Json
CONSTANTS Kinds, Batch, Faults, Times, Others, Crashes, Keep
VARIABLES left, hist
mcVars == <<brVars, left, hist>>
Kind(c) == CASE c = "good" -> [w |-> 2, r |-> 50, c |-> 2000, pct |-> 51, form |-> "ok"]
             [] c = "low" -> [w |-> 2, r |-> 599, c |-> 600, pct |-> 51, form |-> "ok"]
             [] c = "junk" -> [w |-> 2, r |-> 50, c |-> 2000, pct |-> 51, form |-> "junk"]
             [] c = "rich" -> [w |-> 5, r |-> 1999, c |-> 2000, pct |-> 51, form |-> "ok"]
H(r) == hist' = IF Keep # "" THEN Append(hist, r) ELSE hist
Spend(f) == left[f] > 0 /\ left' = [left EXCEPT ![f] = @ - 1]
Those(c) == CASE c = "g" -> <<"good">> [] c = "j" -> <<"junk">> [] c = "gj" -> <<"good", "junk">> [] c = "gg" -> <<"good", "low">> [] c = "jr" -> <<"junk", "rich">> [] c = "ggg" -> <<"good", "low", "good">>
Init == \E c \in Kinds : \E ks \in {Those(c)} :
  /\ b = Start([batch |-> Batch, skip |-> 0, qs |-> [i \in 1..Len(ks) |-> [k |-> Kind(ks[i]), st |-> 1, res |-> <<>>]], sent |-> <<>>, now |-> 0, db |-> <<>>, max |-> 0,
                eth |-> 0, snd |-> 0, wit |-> 0, rep |-> 0, pend |-> 0])
  /\ done = TRUE /\ left = [faults |-> Faults, times |-> Times, others |-> Others, crashes |-> Crashes]
  /\ hist = [i \in 1..Len(ks) |-> [op |-> "post"] @@ Kind(ks[i])]
Todo == b.snd.todo \cup In(b, "New")
Picks(a) == CASE a = "send" -> {0} \cup Todo [] a = "wit" -> 0..Len(b.sent) [] OTHER -> {0}
(* at most two requests that are not acceptable *)
Bads == {<<q, t>> : q \in {i \in Todo : Bad(b, i)}, t \in b.snd.times \cup {b.now}}
Orders(a) == CASE a = "send" -> {<<>>} \cup {<<x>> : x \in Bads} \cup {<<x, y>> : x \in Bads, y \in Bads}
               [] a = "wit" -> {<<>>, Handed(b)} \cup (IF b.wit.pc = "block" THEN {Append(Handed(b), <<b.wit.cur.q, Moment(b.sent[b.wit.cur.tx].epoch, b.wit.round)>>)} ELSE {})
               [] OTHER -> {<<>>}
Hows(a, i) == IF a = "rep" /\ b.rep[i].pc = "call" THEN {"ok", "reverted", "mined"}
              ELSE IF (a = "send" /\ b.snd.pc = "send") \/ (a = "wit" /\ b.wit.pc = "report") THEN {"ok", "refused", "unreachable"} ELSE {"ok", "refused"}
Act(a, i) == \E how \in Hows(a, i) :
               /\ IF how = "ok" THEN left' = left ELSE Spend("faults")
               /\ \E pick \in Picks(a), order \in Orders(a) : Go(a, i, how, pick, order)
               /\ H([op |-> "go", a |-> a, i |-> i, how |-> how])
Res(n) == IF n % 2 = 1 THEN "0" \o ToString(n) ELSE "001122334455667788990011223344556677889900" \o "0" \o ToString(n)
Came(n) == /\ n \in 1..Len(b.sent) /\ b.sent[n].len = 0
           /\ \E x \in {Res(n)} : Mine(n, x, IF n % 2 = 1 THEN 2 ELSE 44, 97 + n, n % 2) /\ H([op |-> "mine", n |-> n, res |-> x, len |-> IF n % 2 = 1 THEN 2 ELSE 44, epoch |-> 97 + n, round |-> n % 2])
           /\ left' = left
Eth1 == Act("eth", 1)
Snd1 == Act("send", 1)
Wit1 == Act("wit", 1)
RepN(i) == i \in 1..Len(b.rep) /\ Act("rep", i)
Next == \/ Eth1 \/ Snd1 \/ Wit1 \/ (\E i \in 1..3 : RepN(i)) \/ (\E n \in 1..4 : Came(n))
        \/ Spend("times") /\ In(b, "Pending") # {} /\ Time(100) /\ H([op |-> "time", by |-> 100])
        \/ \E q \in 1..Len(b.qs), to \in {0, 2} : Waits(b, q) /\ Spend("others") /\ Elsewhere(q, to) /\ H([op |-> "settle", q |-> q, to |-> to])
        \/ Spend("crashes") /\ Crash /\ H([op |-> "crash"])
Spec == Init /\ [][Next]_mcVars
Fair == /\ WF_mcVars(Eth1) /\ WF_mcVars(Snd1) /\ WF_mcVars(Wit1) /\ \A i \in 1..3 : WF_mcVars(RepN(i)) /\ \A n \in 1..4 : WF_mcVars(Came(n))
FairSpec == Spec /\ Fair
View == <<b, left>>
(* once the faults are over, every query gets an answer *)
Served == \A i \in 1..2 : <>[](i > Len(b.qs) \/ (i \in Known(b) /\ b.db[i].st \in Settled))
(* somebody works on what is not so any more *)
Old(q, tx) == b.db[q].st # "Pending" \/ b.db[q].tx # tx
Stale == \/ \E r \in b.wit.todo : Old(r.q, r.tx)
         \/ b.wit.pc \in {"report", "block"} /\ Old(b.wit.cur.q, b.wit.cur.tx)
         \/ \E q \in b.snd.todo : b.db[q].st # "New"
Emit == \/ hist' = hist \/ Keep = ""
        \/ Keep = "stale" /\ (~Stale \/ (b'.snd = b.snd /\ b'.wit = b.wit))
        \/ PrintT("@@" \o ToJson(hist'))
=============================================================================
