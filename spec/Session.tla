------------------------------ MODULE Session ------------------------------
(* A session with a peer (node/src/actors/session, codec.rs): frames that    *)
(* arrive in any pieces, in the present or the legacy encoding or as junk;   *)
(* the handshake; what is asked and answered; and the end of it.             *)
(* A session is a record and every event a function of it, so that two of    *)
(* them can be put together (MC_Talk).                                       *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt
Range2(q) == {q[i] : i \in 1..Len(q)}
None == [k |-> "none", n |-> 0]
Quiet == [sent |-> <<>>, chain |-> <<>>, peers |-> <<>>, sess |-> <<>>, epochs |-> <<>>]
(* the blocks of this world: at which epoch, and which differ in what only the present schema has; 8 has the header of 2 and other transactions *)
Epoch == <<3, 8, 9, 10, 12, 12, 12, 8>>
Legacy(n) == IF n = 6 THEN 7 ELSE n
Header(n) == IF n = 8 THEN 2 ELSE n
(* the identity of a block in the terms of the first protocol (0) and of the later ones (1); the later ones begin with epoch 10 *)
Id(n, v) == IF v = 0 THEN <<Legacy(Header(n)), 0>> ELSE <<Header(n), 1>>
Own(n) == Id(n, IF Epoch[n] < 10 THEN 0 ELSE 1)
Sent(x, m) == [x EXCEPT !.out.sent = Append(@, m)]
Tell(x, who, m) == [x EXCEPT !.out[who] = Append(@, m)]
Ice(x) == Tell(x, "peers", [m |-> "ice"])
Nothing == [m |-> "blocks", bs |-> <<>>, from |-> FALSE]
TellNothing(x) == IF x.out.chain # <<>> /\ Last(x.out.chain) = Nothing THEN x ELSE Tell(x, "chain", Nothing)
Stop(x) == LET y == Tell(x, "sess", [m |-> "unreg", type |-> x.c.type, done |-> x.done])
           IN [(IF x.bts # 0 THEN TellNothing(y) ELSE y) EXCEPT !.on = "gone", !.wait = None, !.wire = <<>>, !.ended = @ + 1]
Drop(x) == Stop(Ice(x))
Await(x, k, n) == [x EXCEPT !.wait = [k |-> k, n |-> n]]
Hello(x) == Sent([x EXCEPT !.vtx = TRUE, !.nv = @ + 1], [m |-> "version", cp |-> x.c.beacon.cp, sb |-> x.c.beacon.sb, h |-> x.c.beacon.h, sender |-> x.c.pub])
Ack(x) == Sent([x EXCEPT !.ktx = TRUE, !.nk = @ + 1], [m |-> "verack"])
Fresh(now, have) == [on |-> "off", c |-> <<>>, done |-> FALSE, vtx |-> FALSE, vrx |-> FALSE, ktx |-> FALSE, krx |-> FALSE, sender |-> 0, epoch |-> 0,
                     req |-> <<>>, got |-> <<>>, bts |-> 0, expect |-> 0, wait |-> None, timer |-> TRUE, wire |-> <<>>, eof |-> FALSE,
                     nv |-> 0, nk |-> 0, ended |-> 0, now |-> now, have |-> have, out |-> Quiet]
(* c: type, maxdiff, first (the epoch it is made at), epoch and reg (how those asked answer), beacon, target, limit, sbp, tmo, pub *)
Start(x, c) ==
  LET y == [Fresh(x.now, x.have) EXCEPT !.on = "on", !.c = c, !.epoch = c.first]
      e == Tell(y, "epochs", [m |-> "epoch?"])
      f == IF c.epoch.how \in {"ok", "early"} THEN Tell(IF c.epoch.how = "ok" THEN [e EXCEPT !.epoch = c.epoch.n] ELSE e, "epochs", [m |-> "subscribe"]) ELSE e
      r == Tell(f, "sess", [m |-> "register", type |-> c.type])
  IN IF c.type = "feel" THEN Hello(y) ELSE IF c.reg # "ok" THEN Stop(Tell(e, "sess", [m |-> "register", type |-> c.type])) ELSE IF c.type = "out" THEN Hello(r) ELSE r
(* ---------------------------------------------------------- the handshake *)
Greeted(x) == x.vtx /\ x.vrx /\ x.ktx /\ x.krx
Consolidate(x) ==
  IF ~Greeted(x) THEN x
  ELSE IF x.c.type = "feel" THEN Stop(Tell(x, "peers", [m |-> "tried"]))
  ELSE Await(Tell(x, "sess", [m |-> "cons", type |-> x.c.type, new |-> IF x.c.type = "in" THEN x.sender ELSE 0]), "cons", 0)
Drifts(x, d) == x.c.maxdiff # 0 /\ (d.ts > x.now + x.c.maxdiff \/ d.ts < x.now - x.c.maxdiff)
Mine(x) == IF x.c.target.on THEN x.c.target ELSE x.c.beacon
Ahead(x, d) == d.cp > x.epoch
Behind(x, d) == Mine(x).sb > d.sb
Forked(x, d) == Mine(x).sb = d.sb /\ Mine(x).h # d.h
Greet(x, d) ==
  IF Drifts(x, d) THEN Drop(x)
  ELSE IF x.c.type # "in" /\ Ahead(x, d) THEN Drop(x)
  ELSE IF x.c.type # "in" /\ (Behind(x, d) \/ Forked(x, d)) THEN (IF x.epoch % 10 = 0 THEN Stop(x) ELSE Drop(x))
  ELSE LET y == [x EXCEPT !.vrx = TRUE, !.sender = d.sender]
           z == IF y.ktx THEN y ELSE Ack(y)
       IN Consolidate(IF z.vtx THEN z ELSE Hello(z))
(* ---------------------------------------------------------------- the rest *)
RECURSIVE Uniq(_)
Uniq(q) == IF q = <<>> THEN <<>> ELSE LET r == Uniq(Front(q)) IN IF Last(q) \in Range2(r) THEN r ELSE Append(r, Last(q))
Entry(i) == [k |-> "block", n |-> i[1], v |-> i[2]]
Limit(c) == IF c.limit = 0 THEN 1000000 ELSE IF c.limit > 2 * c.sbp THEN c.limit ELSE 2 * c.sbp
Announced(x, es) ==
  LET bs == SelectSeq(es, LAMBDA e : e.k = "block")
      few == SubSeq(bs, 1, IF Len(bs) < Limit(x.c) THEN Len(bs) ELSE Limit(x.c))
      req == Uniq([i \in 1..Len(few) |-> Id(few[i].n, few[i].v)])
      y == [x EXCEPT !.req = req, !.got = <<>>, !.bts = x.now]
  IN IF req = <<>> THEN y ELSE Sent(y, [m |-> "invreq", es |-> [i \in 1..Len(req) |-> Entry(req[i])]])
Came(x, b) ==
  LET h == IF Own(b) \in Range2(x.req) THEN Own(b) ELSE Id(b, 1)
      got == (h :> b) @@ x.got
  IN IF h \notin Range2(x.req) THEN Tell(x, "chain", [m |-> "cand", b |-> b])
     ELSE IF Cardinality(DOMAIN got) # Len(x.req) THEN [x EXCEPT !.got = got]
     ELSE Tell([x EXCEPT !.req = <<>>, !.got = <<>>, !.bts = 0], "chain", [m |-> "blocks", bs |-> [i \in 1..Len(x.req) |-> got[x.req[i]]], from |-> TRUE])
(* an item of the inventory, by its entry *)
Known(e) == [k |-> e.k, n |-> IF e.k = "block" THEN Id(e.n, e.v)[1] ELSE e.n, v |-> 0]
RECURSIVE Items(_, _)
Items(x, es) == IF es = <<>> \/ Known(Head(es)) \notin x.have THEN x
                ELSE Items(Sent(x, [m |-> Head(es).k, n |-> Known(Head(es)).n]), Tail(es))
Asked(x, es) ==
  LET y == Items(x, es)
      last == \E i \in 1..Len(y.out.sent) : i > Len(x.out.sent) /\ y.out.sent[i].m = "block" /\ Epoch[y.out.sent[i].n] = x.c.beacon.cp
  IN IF last THEN Await(Tell(y, "chain", [m |-> "votes?"]), "votes", 0) ELSE y
Talk(x, f) ==
  CASE f.m = "getpeers" -> Await(Tell(x, "peers", [m |-> "peers?"]), "peers", 0)
    [] f.m = "peers" -> IF x.expect = 0 THEN Drop(x) ELSE Tell([x EXCEPT !.expect = @ - 1], "peers", [m |-> "add", as |-> f.d.as])
    [] f.m = "invreq" -> Asked(x, f.d.es)
    [] f.m = "inv" -> Announced(x, f.d.es)
    [] f.m = "tx" -> Tell(x, "chain", [m |-> "tx", n |-> f.d.n])
    [] f.m = "super" -> Tell(x, "chain", [m |-> "super", n |-> f.d.n])
    [] f.m = "vote" -> Tell(x, "chain", [m |-> "vote", n |-> f.d.n])
    [] f.m = "block" -> Came(x, IF f.enc = 0 THEN Legacy(f.d.n) ELSE f.d.n)
    [] f.m = "beacon" -> IF x.c.type = "in" THEN Await(Tell(x, "chain", [m |-> "tip?"]), "tip", f.d.cp)
                         ELSE Tell(x, "sess", [m |-> "beacon", cp |-> f.d.cp, sb |-> f.d.sb, h |-> f.d.h])
    [] OTHER -> x
Handle(x, f) ==
  IF f.m = "junk" \/ ~f.ours THEN Drop(x)
  ELSE IF x.done THEN Talk(x, f)
  ELSE CASE f.m = "version" -> Greet(x, f.d)
         [] f.m = "verack" -> Consolidate([x EXCEPT !.krx = TRUE])
         [] OTHER -> x
RECURSIVE Pump(_)
Pump(x) == IF x.on # "on" \/ x.wait.k # "none" THEN x
           ELSE IF x.wire # <<>> /\ Head(x.wire).left = 0 THEN Pump(Handle([x EXCEPT !.wire = Tail(@)], Head(x.wire)))
           ELSE IF x.eof THEN Stop(x) ELSE x
(* every frame comes in four pieces *)
RECURSIVE Arrive(_, _)
Arrive(w, n) == IF w = <<>> \/ n = 0 THEN w
                ELSE LET k == IF Head(w).left < n THEN Head(w).left ELSE n
                     IN <<[Head(w) EXCEPT !.left = @ - k]>> \o Arrive(Tail(w), n - k)
Push(x, f) == IF x.on # "on" \/ x.eof THEN x ELSE [x EXCEPT !.wire = Append(@, [left |-> 4] @@ f)]
Flow(x, n) == Pump([x EXCEPT !.wire = Arrive(@, n)])
HangUp(x) == IF x.on = "on" THEN Pump([x EXCEPT !.eof = TRUE, !.wire = SelectSeq(@, LAMBDA f : f.left = 0)]) ELSE x
Answer(x, how, a) ==
  LET k == x.wait.k
      y == [x EXCEPT !.wait = None]
      good == how = "ok"
  IN IF x.on # "on" \/ k = "none" THEN x
     ELSE Pump(CASE k = "cons" -> (IF good THEN [y EXCEPT !.done = TRUE] ELSE Drop(y))
       [] k = "peers" -> (IF good THEN Sent(y, [m |-> "peers", as |-> a.as]) ELSE Stop(y))
       [] k = "votes" -> (IF good THEN [y EXCEPT !.out.sent = @ \o [i \in 1..Len(a.vs) |-> [m |-> "vote", n |-> a.vs[i]]]] ELSE y)
       [] k = "tip" -> (IF ~good THEN Stop(y)
                        ELSE IF x.wait.n < a.n THEN Await(Tell(y, "chain", [m |-> "range?", lo |-> x.wait.n + 1, hi |-> a.n]), "range", 0) ELSE y)
       [] k = "range" -> IF good /\ a.bs # <<>> THEN Sent(y, [m |-> "inv", es |-> [i \in 1..Len(a.bs) |-> Entry(Own(a.bs[i]))]]) ELSE y)
(* what others in the node want of it; it listens when it does not wait *)
Free(x) == x.on = "on" /\ x.wait.k = "none"
GetPeers(x, n) == IF ~Free(x) THEN x
                  ELSE [x EXCEPT !.expect = IF @ + n > 255 THEN 255 ELSE @ + n, !.out.sent = @ \o [i \in 1..n |-> [m |-> "getpeers"]]]
Say(x, m) == IF Free(x) THEN Sent(x, m) ELSE x
Listing(x, kind, es) == IF Free(x) /\ es # <<>> THEN Sent(x, [m |-> kind, es |-> [i \in 1..Len(es) |-> IF es[i].k = "block" THEN Entry(Id(es[i].n, es[i].v)) ELSE es[i]]]) ELSE x
NewEpoch(x, n) ==
  IF ~Free(x) \/ x.c.type = "feel" \/ x.c.epoch.how \notin {"ok", "early"} THEN x
  ELSE LET y == [x EXCEPT !.epoch = n] IN IF x.bts # 0 /\ x.now - x.bts > x.c.tmo THEN Stop(TellNothing(Ice(y))) ELSE y
Expire(x) == IF ~Free(x) \/ ~x.timer THEN x
             ELSE LET y == [x EXCEPT !.timer = FALSE] IN IF x.done THEN y ELSE IF x.c.type = "out" THEN Drop(y) ELSE Stop(y)
Close(x) == IF Free(x) THEN Stop(x) ELSE x
(* an event as it is written down *)
Do(y, e) ==
  CASE e.op = "start" -> Start(y, e.c)
    [] e.op = "push" -> Push(y, [m |-> e.m, enc |-> e.enc, ours |-> e.ours, d |-> IF e.m = "version" THEN [e.d EXCEPT !.ts = @ + y.now] ELSE e.d])
    [] e.op = "flow" -> Flow(y, e.n)
    [] e.op = "hangup" -> HangUp(y)
    [] e.op = "answer" -> Answer(y, e.how, e)
    [] e.op = "getpeers" -> GetPeers(y, e.n)
    [] e.op = "say" -> (IF e.m = "beacon" THEN Say(y, [m |-> "beacon", cp |-> e.cp, sb |-> e.sb, h |-> e.h]) ELSE Say(y, [m |-> e.m, n |-> e.n]))
    [] e.op = "list" -> Listing(y, e.m, e.es)
    [] e.op = "epoch" -> NewEpoch(y, e.n)
    [] e.op = "expire" -> Expire(y)
    [] e.op = "close" -> Close(y)
    [] e.op = "have" -> [y EXCEPT !.have = {[k |-> e.es[i].k, n |-> e.es[i].n, v |-> 0] : i \in 1..Len(e.es)}]
    [] e.op = "time" -> [y EXCEPT !.now = @ + e.by]
(* --------------------------------------------------------------- the rules *)
SessionInv(x) ==
  /\ x.nv <= 1 /\ x.nk <= 1 /\ (x.done => Greeted(x))
  /\ x.on = "gone" => x.ended = 1
  /\ x.on # "gone" => x.ended = 0
  /\ x.wait.k # "none" => x.on = "on"
  /\ DOMAIN x.got \subseteq Range2(x.req) /\ (x.req # <<>> => Cardinality(DOMAIN x.got) < Len(x.req)) /\ (x.req # <<>> => x.bts # 0)
  (* nothing is heard before the handshake is over *)
  /\ (x.bts # 0 \/ x.expect # 0 => x.c # <<>>)
Heard(x) == \A i \in 1..Len(x.out.chain) : x.out.chain[i] = Nothing \/ x.done
=============================================================================
