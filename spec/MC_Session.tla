------------------------------ MODULE MC_Session ------------------------------
(* One session, from its start or when the handshake is over, and every short *)
(* run of what a peer and the node can do to it.  The runs are scripts for    *)
(* the real actor.                                                            *)
EXTENDS Session, Json
CONSTANTS Types, From, Steps, Words
VARIABLES x, hist, last
mcVars == <<x, hist, last>>
C(t, tg) == [type |-> t, maxdiff |-> 5, first |-> 11, epoch |-> [how |-> "ok", n |-> 12], reg |-> "ok", beacon |-> [cp |-> 9, sb |-> 1, h |-> 1],
             target |-> tg, limit |-> 2, sbp |-> 1, tmo |-> 10, pub |-> 1]
Good == [ts |-> 0, cp |-> 11, sb |-> 1, h |-> 1, sender |-> 2]
P(m, d) == [op |-> "push", m |-> m, enc |-> 1, ours |-> TRUE, d |-> d]
L(m, d) == [P(m, d) EXCEPT !.enc = 0]
Fl(n) == [op |-> "flow", n |-> n]
Whole(p) == <<p, Fl(4)>>
B(n, v) == [k |-> "block", n |-> n, v |-> v]
Z == [n |-> 0]
A(how, n, vs, bs, as) == <<[op |-> "answer", how |-> how, n |-> n, vs |-> vs, bs |-> bs] @@ ("as" :> as)>>
Shake == { Whole(P("version", Good)), Whole(P("version", [Good EXCEPT !.ts = 5, !.cp = 12])), Whole(P("version", [Good EXCEPT !.ts = -6])), Whole(P("version", [Good EXCEPT !.cp = 13])),
           Whole(P("version", [Good EXCEPT !.sb = 0])), Whole(P("version", [Good EXCEPT !.sb = 2, !.h = 3, !.sender = 0])), Whole(P("version", [Good EXCEPT !.h = 2])), Whole(P("verack", Z)),
           Whole(L("block", [n |-> 1])), Whole(P("getpeers", Z)), Whole(P("junk", [kind |-> "empty"])), Whole([P("verack", Z) EXCEPT !.ours = FALSE]),
           A("ok", 0, <<>>, <<>>, <<>>), A("err", 0, <<>>, <<>>, <<>>), <<[op |-> "expire"]>>, <<[op |-> "close"]>>, <<[op |-> "hangup"]>>, <<[op |-> "epoch", n |-> 20]>>, <<[op |-> "getpeers", n |-> 1]>> }
Chat == { Whole(P("inv", [es |-> <<B(4, 1), B(5, 1), B(3, 0)>>])), Whole(P("inv", [es |-> <<B(3, 0), B(3, 0), [k |-> "tx", n |-> 1, v |-> 0]>>])), Whole(P("inv", [es |-> <<>>])),
          Whole(P("block", [n |-> 4])), Whole(P("block", [n |-> 5])), Whole(L("block", [n |-> 3])), Whole(P("block", [n |-> 3])), Whole(P("block", [n |-> 1])),
          Whole(P("invreq", [es |-> <<B(1, 0), B(2, 0), B(3, 0), B(4, 1)>>])), Whole(P("invreq", [es |-> <<[k |-> "tx", n |-> 2, v |-> 0], [k |-> "super", n |-> 2, v |-> 0], B(4, 1)>>])),
          Whole(P("getpeers", Z)), Whole(P("peers", "as" :> <<3, 4>>)), Whole(P("beacon", [cp |-> 8, sb |-> 0, h |-> 1])), Whole(P("tx", [n |-> 1])), Whole(P("super", [n |-> 1])), Whole(P("vote", [n |-> 1])),
          Whole(P("version", Good)), Whole(P("verack", Z)), Whole(P("junk", [kind |-> "nokind"])), Whole([P("tx", [n |-> 1]) EXCEPT !.ours = FALSE]),
          <<P("tx", [n |-> 2]), Fl(3)>>, <<Fl(2)>>, <<P("tx", [n |-> 3]), P("vote", [n |-> 3]), Fl(6)>>,
          A("ok", 10, <<1>>, <<4, 5>>, <<1, 2>>), A("ok", 8, <<>>, <<>>, <<>>), A("err", 0, <<>>, <<>>, <<>>), A("dead", 0, <<>>, <<>>, <<>>),
          <<[op |-> "expire"]>>, <<[op |-> "close"]>>, <<[op |-> "hangup"]>>, <<[op |-> "epoch", n |-> 13]>>, <<[op |-> "getpeers", n |-> 1]>>, <<[op |-> "getpeers", n |-> 255]>>,
          <<[op |-> "time", by |-> 11]>>, <<[op |-> "time", by |-> 10]>>, <<[op |-> "say", m |-> "beacon", cp |-> 9, sb |-> 1, h |-> 1]>>, <<[op |-> "list", m |-> "inv", es |-> <<B(4, 1)>>]>> }
Have == [op |-> "have", es |-> <<B(1, 0), B(2, 0), B(4, 0), [k |-> "tx", n |-> 2], [k |-> "super", n |-> 2]>>]
Opening(t, tg, f) == <<[op |-> "start", c |-> C(t, tg)], Have>> \o (IF f = "met" THEN Whole(P("version", Good)) \o Whole(P("verack", Z)) \o A("ok", 0, <<>>, <<>>, <<>>) ELSE <<>>)
RECURSIVE Run(_, _)
Run(y, es) == IF es = <<>> THEN y ELSE Run(Do(y, Head(es)), Tail(es))
Begin == Fresh(1000, {})
NoTarget == [on |-> FALSE, sb |-> 0, h |-> 1]
Init == \E t \in Types, f \in From, tg \in {NoTarget} \cup (IF "fresh" \in From THEN {[on |-> TRUE, sb |-> 2, h |-> 1]} ELSE {}) :
          /\ hist = Opening(t, tg, f) /\ x = [Run(Begin, hist) EXCEPT !.out = Quiet] /\ last = <<>>
Did == Len(hist)
Next == \E w \in (IF Words = "shake" THEN Shake ELSE Chat) :
          /\ x.on = "on"
          /\ x' = Run([x EXCEPT !.out = Quiet], w) /\ hist' = hist \o w /\ last' = w
Spec == Init /\ [][Next]_mcVars
(* how many words were said *)
Said == (TLCGet("level") - 1) < Steps
View == <<[x EXCEPT !.out = Quiet], TLCGet("level")>>
(* what is told to others when something happens *)
Iced == [m |-> "ice"] \in Range2(x.out.peers)
Unreg == {x.out.sess[i] : i \in {j \in 1..Len(x.out.sess) : x.out.sess[j].m = "unreg"}}
Rules == /\ SessionInv(x) /\ Heard(x)
         (* who ends says so, and only who ends; who is iced is gone *)
         /\ (x.on = "gone") <=> (Unreg # {})
         /\ Iced => x.on = "gone"
         (* a feeler is there to feel *)
         /\ x.c.type = "feel" => ~x.done /\ x.out.chain = <<>>
         (* whoever comes to us is not judged by the chain it follows *)
         /\ (Words = "shake" /\ x.c.type = "in" /\ last # <<>> /\ Head(last).op = "push" /\ Head(last).m = "version" /\ Head(last).d.ts \in -5..5) => x.on = "on"
         (* nothing is told of a peer that was not met, except that it came and went *)
         /\ ~x.done => (x.out.chain = <<>> /\ \A i \in 1..Len(x.out.sent) : x.out.sent[i].m \in {"version", "verack", "getpeers"} \/ Head(last).op \in {"say", "list", "getpeers"})
Emit == PrintT("@@" \o ToJson(hist'))
=============================================================================
