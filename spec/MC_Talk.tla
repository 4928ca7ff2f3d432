------------------------------- MODULE MC_Talk -------------------------------
(* Two nodes and a line between them: one that called (a) and one that was    *)
(* called (b), whose chain is longer.  Frames take their time, those asked    *)
(* within a node too, and either may say at any moment where it stands.       *)
EXTENDS Session
CONSTANTS Ahead2, Loss, Extra
VARIABLES a, b, ab, ba, left, got
vars == <<a, b, ab, ba, left, got>>
Have == {[k |-> "block", n |-> n, v |-> 0] : n \in 1..7}
C(t, cp) == [type |-> t, maxdiff |-> 5, first |-> 12, epoch |-> [how |-> "ok", n |-> 12], reg |-> "ok", beacon |-> [cp |-> cp, sb |-> 1, h |-> 1],
             target |-> [on |-> FALSE, sb |-> 0, h |-> 1], limit |-> 0, sbp |-> 1, tmo |-> 10, pub |-> 1]
(* what was said, as the frame that carries it *)
Frame(x, s) == [left |-> 0, m |-> s.m, enc |-> 1, ours |-> TRUE,
                d |-> CASE s.m = "version" -> [ts |-> x.now, cp |-> s.cp, sb |-> s.sb, h |-> s.h, sender |-> s.sender]
                        [] s.m \in {"inv", "invreq"} -> [es |-> s.es]
                        [] s.m = "peers" -> ("as" :> s.as)
                        [] s.m = "beacon" -> [cp |-> s.cp, sb |-> s.sb, h |-> s.h]
                        [] s.m \in {"verack", "getpeers"} -> [n |-> 0]
                        [] OTHER -> [n |-> s.n]]
Off(x) == [i \in 1..Len(x.out.sent) |-> Frame(x, x.out.sent[i])]
Told(x) == {x.out.chain[i] : i \in 1..Len(x.out.chain)}
(* x did something: it is kept, what it said is on the line *)
Settle(who, x) == IF who = "a" THEN a' = [x EXCEPT !.out = Quiet] /\ ab' = ab \o Off(x) /\ got' = got \cup Told(x) /\ UNCHANGED b
                  ELSE b' = [x EXCEPT !.out = Quiet] /\ ba' = ba \o Off(x) /\ UNCHANGED <<a, got>>
Me(who) == IF who = "a" THEN a ELSE b
Take(who) == LET q == IF who = "a" THEN ba ELSE ab IN
  /\ q # <<>> /\ Me(who).wait.k = "none"
  /\ LET x == IF Me(who).on = "on" THEN Pump([Me(who) EXCEPT !.wire = <<Head(q)>>]) ELSE Me(who) IN
       IF who = "a" THEN a' = [x EXCEPT !.out = Quiet] /\ ba' = Tail(ba) /\ ab' = ab \o Off(x) /\ got' = got \cup Told(x) /\ UNCHANGED <<b, left>>
       ELSE b' = [x EXCEPT !.out = Quiet] /\ ab' = Tail(ab) /\ ba' = ba \o Off(x) /\ UNCHANGED <<a, got, left>>
(* those asked answer: b has what a has not *)
Ans(who) == LET k == Me(who).wait.k IN
  /\ k # "none" /\ UNCHANGED left
  /\ (IF who = "a" THEN UNCHANGED ba ELSE UNCHANGED ab)
  /\ Settle(who, Answer(Me(who), "ok", [n |-> IF who = "b" THEN 12 ELSE 9, bs |-> IF who = "b" THEN Ahead2 ELSE <<>>, vs |-> <<1>>] @@ ("as" :> <<3>>)))
(* where a node stands is said again and again *)
Beacon == /\ a.done /\ Free(a) /\ left.beacons > 0 /\ left' = [left EXCEPT !.beacons = @ - 1] /\ UNCHANGED ba
          /\ Settle("a", Say(a, [m |-> "beacon", cp |-> 9, sb |-> 1, h |-> 1]))
(* a block that nobody asked for, a question for peers *)
Aside(who) == /\ Me(who).done /\ Free(Me(who)) /\ left.extra > 0 /\ left' = [left EXCEPT !.extra = @ - 1]
              /\ (IF who = "a" THEN UNCHANGED ba ELSE UNCHANGED ab)
              /\ Settle(who, IF who = "b" THEN Say(b, [m |-> "block", n |-> 4]) ELSE GetPeers(a, 1))
(* the line breaks *)
Cut(who) == /\ left.cuts > 0 /\ left' = [left EXCEPT !.cuts = @ - 1] /\ (IF who = "a" THEN UNCHANGED ba ELSE UNCHANGED ab) /\ Settle(who, HangUp(Me(who)))
Init == LET x == Start([Fresh(1000, Have) EXCEPT !.now = 1000], C("out", 9))
            y == Start(Fresh(1000, Have), C("in", 12))
        IN a = [x EXCEPT !.out = Quiet] /\ b = [y EXCEPT !.out = Quiet] /\ ab = Off(x) /\ ba = Off(y)
           /\ left = [beacons |-> 1, extra |-> Extra, cuts |-> Loss] /\ got = {}
Next == Take("a") \/ Take("b") \/ Ans("a") \/ Ans("b") \/ Beacon \/ Aside("a") \/ Aside("b") \/ Cut("a") \/ Cut("b")
Spec == Init /\ [][Next]_vars
FairSpec == Spec /\ WF_vars(Take("a")) /\ WF_vars(Take("b")) /\ WF_vars(Ans("a")) /\ WF_vars(Ans("b")) /\ WF_vars(Beacon)
Sane == SessionInv(a) /\ SessionInv(b)
(* the honest do not shut each other out *)
Those == <<4, 5, 6>>
Kind == Loss = 0 => a.on = "on" /\ b.on = "on"
Met == Loss = 0 => <>[](a.done /\ b.done)
(* the blocks of b reach the node of a, in their order *)
Synced == Loss = 0 => <>([m |-> "blocks", bs |-> Ahead2, from |-> TRUE] \in got)
Silence == <>[](ab = <<>> /\ ba = <<>>)
=============================================================================
