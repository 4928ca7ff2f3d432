------------------------------- MODULE Inventory -------------------------------
(* What a node keeps: its blocks, where each transaction is, its superblocks,  *)
(* and the state of its chain.  Whatever was said to be kept is found again    *)
(* under its name; what was never kept is not; a place that does not hold what *)
(* it should is told as such; and a database that fails is told, loses nothing *)
(* that was there, and leaves no transaction without its block.                *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Kinds == <<"vt", "dr", "commit", "reveal", "tally", "stake", "unstake">>
KindOf(t) == IF t % 8 = 0 THEN "mint" ELSE Kinds[t % 8]
Txs == <<  <<8, 1, 9, 2, 3, 4, 5>>,
           <<16, 9, 1, 17, 10, 11, 19, 12, 20, 13, 21>>,
           <<24, 1, 2, 3, 4, 5, 6, 14, 7, 15>>,
           <<24, 33, 25, 17, 9, 1, 18, 14, 22, 23>>,
           <<8>>,
           <<32, 1, 3, 11, 19, 27>> >>
EpochOf == <<3, 12, 25, 25, 4, 10>>
(* those that an old node could have written *)
Olds == {1, 2, 5}
Blocks == 1..6
AllTxs == 1..33
Supers == <<1, 2, 9, 10, 2000000000>>
In(b, t) == \E i \in DOMAIN Txs[b] : Txs[b][i] = t
OfKind(b, k) == SelectSeq(Txs[b], LAMBDA t : KindOf(t) = k)
(* the place of the i-th transaction of a block *)
Place(b, i) == [b |-> b, k |-> KindOf(Txs[b][i]), i |-> Cardinality({j \in 1..(i - 1) : KindOf(Txs[b][j]) = KindOf(Txs[b][i])})]
Holds(p, t) == IF p.b \notin Blocks THEN FALSE ELSE LET s == OfKind(p.b, p.k) IN p.i < Len(s) /\ s[p.i + 1] = t

Fresh == [block |-> [b \in Blocks |-> "no"], at |-> [t \in AllTxs |-> <<>>], sup |-> [i \in 1..5 |-> 0], chain |-> "none", other |-> <<>>,
          (* for the rules: blocks that were said to be kept, transactions placed by hand, whether anything was spoiled *)
          kept |-> {}, hand |-> {}, spoiled |-> FALSE, res |-> [r |-> "ok"]]

(* ----------------------------------------------------------------- writing *)
RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))
Each(es, F(_)) == Flat([i \in 1..Len(es) |-> F(es[i])])
BlockWrite(e) == IF e.k = "block" THEN <<[w |-> "block", b |-> e.n]>> ELSE <<>>
TxWrite(e) == CASE e.k = "block" -> [i \in 1..Len(Txs[e.n]) |-> [w |-> "at", t |-> Txs[e.n][i], p |-> Place(e.n, i)]]
                [] e.k = "tx" -> <<[w |-> "at", t |-> e.n, p |-> e.p]>>
                [] OTHER -> <<>>
SupWrite(e) == IF e.k = "super" THEN <<[w |-> "super", i |-> CHOOSE i \in 1..5 : Supers[i] = e.n, v |-> e.v]>> ELSE <<>>
(* the blocks come before what points to them *)
Writes(es) == Each(es, BlockWrite) \o Each(es, TxWrite) \o Each(es, SupWrite)
Write(x, w) == CASE w.w = "block" -> [x EXCEPT !.block[w.b] = "yes"]
                 [] w.w = "at" -> [x EXCEPT !.at[w.t] = <<w.p>>]
                 [] w.w = "super" -> [x EXCEPT !.sup[w.i] = w.v]
RECURSIVE WriteAll(_, _)
WriteAll(x, ws) == IF ws = <<>> THEN x ELSE WriteAll(Write(x, Head(ws)), Tail(ws))

(* ----------------------------------------------------------------- reading *)
ReadBlock(x, b) == IF b \notin Blocks THEN [r |-> "none"]
                   ELSE CASE x.block[b] = "no" -> [r |-> "none"] [] x.block[b] = "bad" -> [r |-> "err"] [] OTHER -> [r |-> "ok", n |-> b]
ReadTx(x, t) == IF x.at[t] = <<>> THEN [r |-> "none"]
                ELSE LET p == x.at[t][1]
                         blk == ReadBlock(x, p.b).r IN
                     CASE blk = "none" -> [r |-> "lost", p |-> p]
                       [] blk = "err" -> [r |-> "err"]
                       [] Holds(p, t) -> [r |-> "ok", n |-> t, p |-> p, e |-> EpochOf[p.b]]
                       [] OTHER -> [r |-> "wrong", p |-> p]
ReadSuper(x, i) == IF x.sup[i] = 0 THEN [r |-> "none"] ELSE [r |-> "ok", n |-> Supers[i], v |-> x.sup[i]]
ReadChain(x) == CASE x.chain = "none" -> [r |-> "none"] [] x.chain = "bad" -> [r |-> "err"] [] OTHER -> [r |-> "ok", n |-> CHOOSE n \in 1..3 : x.chain = ToString(n)]
View0(x) == [blocks |-> [b \in 1..6 |-> ReadBlock(x, b)], txs |-> [t \in 1..33 |-> ReadTx(x, t)], supers |-> [i \in 1..5 |-> ReadSuper(x, i)], state |-> ReadChain(x)]
Read(x, o) == LET r == CASE o.k = "block" -> ReadBlock(x, o.n)
                         [] o.k = "tx" -> ReadTx(x, o.n)
                         [] o.k = "super" -> (IF \E i \in 1..5 : Supers[i] = o.n THEN ReadSuper(x, CHOOSE i \in 1..5 : Supers[i] = o.n) ELSE [r |-> "none"])
                         [] OTHER -> ReadChain(x)
              IN IF o.any /\ r.r = "ok" /\ o.k = "tx" THEN [r |-> "ok", n |-> r.n] ELSE r
Here(x, ns) == SelectSeq(ns, LAMBDA n : x.block[n] = "yes")
AllSupers(x) == LET F(i) == IF x.sup[i] = 0 THEN <<>> ELSE <<<<Supers[i], x.sup[i]>>>> IN Each(<<1, 2, 3, 4, 5>>, F)
OtherAt(x, k) == IF k \in DOMAIN x.other THEN [r |-> "ok", n |-> x.other[k]] ELSE [r |-> "none"]
Err == [r |-> "err"]
Ok == [r |-> "ok"]

(* -------------------------------------------------- what happens, when the database does its work *)
Explicit(es) == {es[i].n : i \in {j \in 1..Len(es) : es[j].k = "tx"}}
BlocksOf(es) == {es[i].n : i \in {j \in 1..Len(es) : es[j].k = "block"}}
Do(x, o) ==
  CASE o.op = "add" -> [WriteAll(x, Writes(o.es)) EXCEPT !.kept = @ \cup BlocksOf(o.es), !.hand = @ \cup Explicit(o.es), !.res = Ok]
    [] o.op = "get" -> [x EXCEPT !.res = Read(x, o)]
    [] o.op = "blocks" -> [x EXCEPT !.res = [r |-> "ok", ns |-> Here(x, o.ns)]]
    [] o.op = "supers" -> [x EXCEPT !.res = [r |-> "ok", ns |-> AllSupers(x)]]
    [] o.op = "old" -> [x EXCEPT !.block[o.n] = "yes", !.res = Ok]
    [] o.op = "garble" -> [x EXCEPT !.block[o.n] = "bad", !.kept = @ \ {o.n}, !.spoiled = TRUE, !.res = Ok]
    [] o.op = "drop" -> [x EXCEPT !.block[o.n] = "no", !.kept = @ \ {o.n}, !.spoiled = TRUE, !.res = Ok]
    [] o.op = "state" -> [x EXCEPT !.chain = ToString(o.n), !.res = Ok]
    [] o.op = "former" -> [x EXCEPT !.chain = IF o.v \in {0, 2, 3, 4, 5} THEN ToString(o.n) ELSE "bad", !.res = Ok]
    [] o.op = "other" -> [x EXCEPT !.other = (o.key :> o.n) @@ @, !.res = Ok]
    [] o.op = "read" -> [x EXCEPT !.res = OtherAt(x, o.key)]
(* -------------------------------------------------- and when it fails at the k-th thing it was asked *)
(* what was written before is written; what came after is not *)
Failed(x, o, done) == IF o.op = "add" THEN [WriteAll(x, SubSeq(Writes(o.es), 1, done)) EXCEPT !.hand = @ \cup Explicit(o.es), !.res = Err] ELSE [x EXCEPT !.res = Err]
(* of many blocks, one is missing *)
Without(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
FailedBlocks(x, o, k) == [x EXCEPT !.res = [r |-> "ok", ns |-> Here(x, Without(o.ns, k))]]

(* ----------------------------------------------------------------- the rules *)
TxOf(x, t) == ReadTx(x, t).r
InventoryInv(x) ==
  (* a transaction that is found is where it is said to be *)
  /\ \A t \in AllTxs : TxOf(x, t) = "ok" => Holds(x.at[t][1], t) /\ x.block[x.at[t][1].b] = "yes"
  (* what was said to be kept is there, with all it holds *)
  /\ \A b \in x.kept : x.block[b] = "yes" /\ \A i \in DOMAIN Txs[b] : Txs[b][i] \notin x.hand => TxOf(x, Txs[b][i]) \notin {"none", "wrong"}
  (* nothing is lost by itself, whatever fails *)
  /\ ~x.spoiled => \A t \in AllTxs \ x.hand : TxOf(x, t) \in {"none", "ok"}
=============================================================================
