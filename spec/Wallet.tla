------------------------------- MODULE Wallet -------------------------------
(* A wallet: its addresses, the outputs it owns, its stakes, its balances and its movements, from the blocks it is   *)
(* told of: pending ones, kept in memory until a superblock confirms them, and confirmed ones, kept on disk.         *)
(* Addresses are named E0, E1.. (to be given away), I0, I1.. (for change) and F0, F1.. (of others).                  *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC
VARIABLES w,      (* what is in memory *)
          d,      (* what is on disk *)
          made,   (* the transactions made *)
          conf,   (* settings: unc: outputs of pending transactions may be spent; batch, patience *)
          dirty,  (* a write failed: memory is not to be relied on before the wallet is opened again *)
          res
walletVars == <<w, d, made, conf, dirty, res>>
Name(c, i) == c \o ToString(i)
Names == [c \in {"E", "I"} |-> {Name(c, i) : i \in 0..23}]
Kind(a) == IF a \in Names["E"] THEN "E" ELSE IF a \in Names["I"] THEN "I" ELSE "F"
Index(c, a) == CHOOSE i \in 0..23 : Name(c, i) = a
Merge(f, g) == [x \in DOMAIN f \cup DOMAIN g |-> IF x \in DOMAIN g THEN g[x] ELSE f[x]]
Only(f, q) == [x \in q |-> f[x]]
Without(f, q) == Only(f, DOMAIN f \ q)
Set(q) == {q[i] : i \in 1..Len(q)}
Total(q) == FoldLeft(LAMBDA t, x : t + x, 0, q)
Sum(f) == FoldLeft(LAMBDA t, x : t + f[x], 0, SetToSeq(DOMAIN f))
Over(x, y) == IF x > y THEN x - y ELSE 0
Time(ep) == 100 + 10 * ep
Fresh(label) == [amt |-> 0, pays |-> <<>>, first |-> 0, last |-> 0, label |-> label]
Disk0 == [utxo |-> <<>>, stakes |-> <<>>, bal |-> <<0, 0, 0>>, next |-> 0, sync |-> <<0, "g">>, mov |-> <<>>, idx |-> <<>>, ne |-> 0, ni |-> 0, info |-> <<>>, name |-> "", text |-> "", notes |-> <<>>]
(* a wallet just opened *)
Open(k) == [utxo |-> k.utxo, stakes |-> k.stakes, unc |-> k.bal, conf |-> k.bal, local |-> 0, next |-> k.next, locals |-> <<>>, pend |-> <<>>, pdr |-> <<>>, ptx |-> {},
            used |-> {}, ne |-> k.ne, ni |-> k.ni, sync |-> k.sync, last |-> k.sync, te |-> {}, ti |-> {}, infoP |-> <<>>, name |-> k.name, text |-> k.text]
WalletInit(cfg) == d = Disk0 /\ w = Open(Disk0) /\ made = <<>> /\ conf = cfg /\ dirty = FALSE /\ res = [none |-> TRUE]
(* -- addresses ------------------------------------------------------------------------------- *)
(* a state is both: [w, d] *)
GenE(s, label) == [w |-> [s.w EXCEPT !.ne = s.w.ne + 1], d |-> [s.d EXCEPT !.info = Merge(@, Name("E", s.w.ne) :> Fresh(label)), !.ne = s.w.ne + 1]]
GenI(s, label) == [w |-> [s.w EXCEPT !.ni = s.w.ni + 1], d |-> [s.d EXCEPT !.info = Merge(@, Name("I", s.w.ni) :> Fresh(label)), !.ni = s.w.ni + 1]]
Mine(k, a) == a \in DOMAIN k.info
(* while it catches up, a wallet looks a few addresses ahead, and takes those that were used *)
Ahead(s, n) == [s EXCEPT !.w.te = @ \cup {Name("E", i) : i \in s.w.ne..(s.w.ne + n - 1)}, !.w.ti = @ \cup {Name("I", i) : i \in s.w.ni..(s.w.ni + n - 1)}]
RECURSIVE Grown(_, _, _)
Grown(s, as, n) ==
  LET es == {Index("E", a) : a \in as \cap s.w.te}  is == {Index("I", a) : a \in as \cap s.w.ti}
      ne == CHOOSE m \in {i + 1 : i \in es} \cup {s.w.ne} : \A x \in {i + 1 : i \in es} \cup {s.w.ne} : x <= m
      ni == CHOOSE m \in {i + 1 : i \in is} \cup {s.w.ni} : \A x \in {i + 1 : i \in is} \cup {s.w.ni} : x <= m
      s1 == FoldLeft(LAMBDA t, i : GenE(t, ""), s, [i \in 1..(ne - s.w.ne) |-> i])
      s2 == FoldLeft(LAMBDA t, i : GenI(t, ""), s1, [i \in 1..(ni - s.w.ni) |-> i])
      s3 == [s2 EXCEPT !.w.te = @ \ {Name("E", i) : i \in s.w.ne..(ne - 1)}, !.w.ti = @ \ {Name("I", i) : i \in s.w.ni..(ni - 1)}]
  IN  IF ne = s.w.ne /\ ni = s.w.ni THEN s ELSE Grown(Ahead(s3, n), as, n)
CatchUp(s, txs) == IF s.w.te \cup s.w.ti = {} THEN s ELSE Grown(s, UNION {{o[1] : o \in Set(t.outs)} : t \in Set(txs)}, conf.batch)
(* -- transactions ----------------------------------------------------------------------------- *)
(* [t, k, n, ins, outs, meta: the values of the inputs] and: of a stake and an unstake stk: <<validator, withdrawer, amount or fee>>, *)
(* of a tally dr, res, rev: what was revealed by whom, liars *)
Ins(t) == IF t.k \in {"vt", "dr", "commit", "stake"} THEN t.ins ELSE <<>>
Report(t) ==
  LET mute == {a \in Set(t.liars) : \A i \in 1..Len(t.rev) : t.rev[i][1] # a}
      all == [i \in 1..Len(t.rev) |-> <<t.rev[i][2], t.rev[i][1] \notin Set(t.liars)>>] \o [i \in 1..Cardinality(mute) |-> <<-1, FALSE>>]
  IN  <<t.res, SortSeq(all, LAMBDA x, y : x[1] < y[1] \/ (x[1] = y[1] /\ ~x[2] /\ y[2]))>>
FeeOf(t) == LET paid == Total(t.meta)  back == Total([i \in 1..Len(t.outs) |-> t.outs[i][2]]) IN
            IF t.k = "tally" THEN 0 ELSE IF t.k = "stake" THEN Over(Over(paid, t.stk[3]), back) ELSE IF paid = 0 THEN 0 ELSE Over(paid, back)
Taken(s, t) == Set(Ins(t)) \cap DOMAIN s.w.utxo
Given(s, t) == {i \in 1..Len(t.outs) : Mine(s.d, t.outs[i][1])}
Concerns(s, t) == Taken(s, t) # {} \/ Given(s, t) # {}
Movement(s, t, b, ep, sure) ==
  LET lost == Total([i \in 1..Len(Ins(t)) |-> IF Ins(t)[i] \in DOMAIN s.w.utxo THEN s.w.utxo[Ins(t)[i]][2] ELSE 0])
      won == Total([i \in 1..Len(t.outs) |-> IF i \in Given(s, t) THEN t.outs[i][2] ELSE 0])
  IN  [t |-> t.t, id |-> s.w.next, up |-> won >= lost, amt |-> IF won >= lost THEN won - lost ELSE lost - won, fee |-> FeeOf(t), sure |-> sure, ep |-> ep, b |-> b,
       time |-> IF b = "" THEN 0 ELSE Time(ep), k |-> t.k, ins |-> IF t.k \in {"vt", "dr", "commit", "stake"} THEN t.meta ELSE <<>>,
       outs |-> [i \in 1..Len(t.outs) |-> t.outs[i] \o <<IF Mine(s.d, t.outs[i][1]) THEN Kind(t.outs[i][1]) ELSE "F">>],
       tally |-> IF t.k = "tally" THEN Report(t) ELSE <<>>]
Info(s, a) == IF a \in DOMAIN s.w.infoP THEN s.w.infoP[a] ELSE s.d.info[a]
Staked(stakes, t) ==
  LET key == <<t.stk[1], IF t.k = "stake" THEN t.stk[2] ELSE t.outs[1][1]>>
      was == IF key \in DOMAIN stakes THEN stakes[key] ELSE 0
  IN  IF t.k = "stake" THEN Merge(stakes, key :> was + t.stk[3])
      (* what is withdrawn and its fee may be more than was staked: rewards are added to a stake *)
      ELSE LET rest == Over(was, t.outs[1][2] + t.stk[3]) IN IF rest = 0 THEN Without(stakes, {key}) ELSE Merge(stakes, key :> rest)
(* acc: [w, d, infos, moves, drs, upd] *)
IndexOne(acc, t, b, ep, sure) ==
  LET m == Movement(acc, t, b, ep, sure)
      born == [p \in {<<t.t, i - 1>> : i \in Given(acc, t)} |-> t.outs[p[2] + 1]]
      paid == FoldLeft(LAMBDA f, o :
                IF ~Mine(acc.d, t.outs[o][1]) THEN f
                ELSE LET a == t.outs[o][1]  old == IF a \in DOMAIN f THEN f[a] ELSE Info(acc, a) IN
                     Merge(f, a :> [amt |-> old.amt + t.outs[o][2], pays |-> Append(old.pays, <<t.t, o - 1>>), first |-> IF old.pays = <<>> THEN Time(ep) ELSE old.first, last |-> Time(ep), label |-> old.label]),
                acc.infos, [i \in 1..Len(t.outs) |-> i])
      a1 == IF ~Concerns(acc, t) THEN acc
            ELSE [acc EXCEPT !.w.locals = Without(@, {t.t}), !.w.local = IF t.t \in DOMAIN acc.w.locals THEN @ - acc.w.locals[t.t].amt ELSE @,
                             !.w.utxo = Merge(Without(@, Taken(acc, t)), born), !.w.used = @ \ Taken(acc, t),
                             !.w.stakes = IF t.k \in {"stake", "unstake"} THEN Staked(@, t) ELSE @, !.w.next = @ + 1,
                             !.infos = IF t.k \in {"vt", "mint", "stake", "unstake"} THEN paid ELSE @, !.moves = Append(@, m),
                             !.drs = IF t.k = "dr" THEN Merge(@, t.t :> <<b, Len(acc.moves) + 1>>) ELSE @]
  IN  IF t.k # "tally" THEN a1
      ELSE IF t.dr \in DOMAIN a1.w.pdr
      THEN LET at == a1.w.pdr[t.dr] IN
           [a1 EXCEPT !.w.pend = [i \in 1..Len(@) |-> IF @[i].b = at[1] THEN [@[i] EXCEPT !.moves[at[2]].tally = Report(t)] ELSE @[i]], !.w.pdr = Without(@, {t.dr})]
      ELSE IF t.dr \in DOMAIN a1.d.idx /\ a1.d.mov[a1.d.idx[t.dr]].k = "dr"
      THEN [a1 EXCEPT !.upd = Append(@, [a1.d.mov[a1.d.idx[t.dr]] EXCEPT !.tally = Report(t), !.id = a1.d.idx[t.dr]])]
      ELSE a1
(* those of a block that concern the wallet: they spend what it owns, or pay it, or resolve its requests *)
Filter(s, txs) ==
  FoldLeft(LAMBDA acc, t :
    IF Set(Ins(t)) \cap acc.own # {} \/ (\E o \in Set(t.outs) : Mine(s.d, o[1]) \/ o[1] \in s.w.te \cup s.w.ti)
       \/ (t.k = "tally" /\ (t.dr \in DOMAIN s.w.pdr \/ t.dr \in DOMAIN s.d.idx))
    THEN [own |-> acc.own \cup {<<t.t, i - 1>> : i \in {j \in 1..Len(t.outs) : Mine(s.d, t.outs[j][1])}}, txs |-> Append(acc.txs, t)] ELSE acc,
    [own |-> DOMAIN s.w.utxo, txs |-> <<>>], txs).txs
BalanceAt(utxo, stakes, ep) ==
  LET part(q) == Sum([p \in q |-> utxo[p][2]]) IN
  <<part({p \in DOMAIN utxo : utxo[p][3] < Time(ep)}), part({p \in DOMAIN utxo : utxo[p][3] >= Time(ep)}), Sum(stakes)>>
Written(k, moves, infos, snap) ==
  [k EXCEPT !.mov = FoldLeft(LAMBDA f, m : Merge(f, m.id :> [m EXCEPT !.sure = TRUE]), @, moves), !.idx = FoldLeft(LAMBDA f, m : Merge(f, m.t :> m.id), @, moves),
            !.next = snap.next, !.utxo = snap.utxo, !.stakes = snap.stakes, !.bal = snap.bal, !.info = Merge(@, infos), !.sync = snap.at]
(* -- what happens ------------------------------------------------------------------------------ *)
(* S: the state before, r: what there is to see *)
S == [w |-> w, d |-> d]
To(s, r) == w' = s.w /\ d' = s.d /\ res' = r /\ dirty' = FALSE /\ UNCHANGED conf
Spoilt(k) == d' = k /\ w' = w /\ dirty' = TRUE /\ res' = [err |-> TRUE] /\ UNCHANGED conf
Address(kind, label, fail) ==
  /\ made' = made
  /\ IF kind = "P" THEN To(S, [got |-> Name("I", w.ni)])
     ELSE IF fail > 0 THEN To(S, [got |-> "failed"])
     ELSE IF kind = "E" THEN To(GenE(S, label), [got |-> Name("E", w.ne)]) ELSE To(GenI(S, label), [got |-> Name("I", w.ni)])
Indexed(s, txs, b, ep, sure) ==
  LET own == Filter(s, txs)
      acc == FoldLeft(LAMBDA a, t : IndexOne(a, t, b, ep, sure), [w |-> s.w, d |-> s.d, infos |-> <<>>, moves |-> <<>>, drs |-> <<>>, upd |-> <<>>], own)
      bal == BalanceAt(acc.w.utxo, acc.w.stakes, ep)
      snap == [bal |-> bal, at |-> <<ep, b>>, next |-> acc.w.next, utxo |-> acc.w.utxo, stakes |-> acc.w.stakes]
      sees == [err |-> FALSE, own |-> [i \in 1..Len(own) |-> own[i].t], moves |-> acc.moves]
  IN  IF sure
      THEN [s |-> [d |-> Written(acc.d, acc.moves \o acc.upd, acc.infos, snap),
                   w |-> [acc.w EXCEPT !.unc = bal, !.conf = bal, !.ptx = {}, !.pdr = Without(@, {m.t : m \in Set(acc.moves \o acc.upd)}), !.sync = <<ep, b>>, !.last = <<ep, b>>,
                                       !.infoP = Without(@, DOMAIN acc.infos)]], r |-> sees]
      ELSE [s |-> [d |-> acc.d,
                   w |-> [acc.w EXCEPT !.unc = bal, !.infoP = Merge(@, acc.infos), !.pdr = Merge(@, acc.drs), !.ptx = @ \cup {m.t : m \in Set(acc.moves)}, !.sync = <<ep, b>>,
                                       !.pend = Append(@, [b |-> b, snap |-> snap, moves |-> acc.moves, upd |-> acc.upd, infos |-> acc.infos])]], r |-> sees]
(* transactions are described, or named if they were made here; those that were not are left out *)
Resolved(xs) == FoldLeft(LAMBDA q, x : IF "made" \notin DOMAIN x THEN Append(q, x) ELSE IF x.made \in DOMAIN made THEN Append(q, made[x.made]) ELSE q, <<>>, xs)
Block(b, ep, sure, xs, fail) ==
  /\ made' = made
  /\ IF fail > 0 THEN Spoilt(d) ELSE \E txs \in {Resolved(xs)} : \E s \in {CatchUp(S, txs)} : \E x \in {Indexed(s, txs, b, ep, sure)} : To(x.s, x.r)
At(b) == {i \in 1..Len(w.pend) : w.pend[i].b = b}
Confirm(s, b) ==
  LET i == CHOOSE j \in 1..Len(s.w.pend) : s.w.pend[j].b = b  p == s.w.pend[i]  all == p.moves \o p.upd IN
  [d |-> Written(s.d, all, p.infos, p.snap),
   w |-> [s.w EXCEPT !.pend = SubSeq(@, 1, i - 1) \o SubSeq(@, i + 1, Len(@)), !.pdr = Without(@, {m.t : m \in Set(all)}), !.ptx = @ \ {m.t : m \in Set(all)}, !.last = p.snap.at, !.conf = p.snap.bal]]
(* a superblock confirms blocks, in their order, up to the first that is not known; the n-th write fails *)
Super(bs, fail) ==
  LET acc == FoldLeft(LAMBDA a, b :
               IF a.err \/ b = "b0" THEN a
               ELSE IF \A i \in 1..Len(a.s.w.pend) : a.s.w.pend[i].b # b THEN [a EXCEPT !.err = TRUE]
               ELSE IF a.n = fail THEN [a EXCEPT !.err = TRUE, !.bad = TRUE]
               ELSE [a EXCEPT !.s = Confirm(@, b), !.n = @ + 1],
               [s |-> S, n |-> 1, err |-> FALSE, bad |-> FALSE], bs)
  IN  /\ made' = made
      /\ IF bs # <<>> /\ bs[Len(bs)] = w.last[2] THEN To(S, [err |-> FALSE])
         ELSE IF acc.bad THEN /\ w' = [acc.s.w EXCEPT !.pend = Tail(@)] /\ d' = acc.s.d /\ res' = [err |-> TRUE] /\ dirty' = TRUE /\ UNCHANGED conf
         ELSE To(acc.s, [err |-> acc.err])
(* what was pending is not to be: back to what is on disk *)
Orphan ==
  /\ made' = made
  /\ To([d |-> d, w |-> [Open(d) EXCEPT !.used = w.used \cap DOMAIN d.utxo, !.sync = w.last, !.last = w.last, !.ne = w.ne, !.ni = w.ni, !.te = w.te, !.ti = w.ti, !.name = w.name, !.text = w.text]], [ok |-> TRUE])
Restart == made' = made /\ To([d |-> d, w |-> Open(d)], [ok |-> TRUE])
(* all that came from the chain is forgotten, on disk as well *)
Wipe(fail) ==
  LET d1 == [d EXCEPT !.utxo = <<>>, !.stakes = <<>>, !.bal = <<0, 0, 0>>, !.next = 0, !.sync = <<0, "g">>, !.ne = 0, !.ni = 0] IN
  /\ made' = made
  /\ IF fail > 0 THEN Spoilt(d) ELSE To([d |-> d1, w |-> [Open(d1) EXCEPT !.name = w.name, !.text = w.text]], [err |-> FALSE])
Syncing(on) == made' = made /\ To(IF on THEN Ahead(S, conf.batch) ELSE [S EXCEPT !.w.te = {}, !.w.ti = {}], [ok |-> TRUE])
Rename(name, text) ==
  /\ made' = made
  /\ To([w |-> [w EXCEPT !.name = name, !.text = text], d |-> [d EXCEPT !.name = IF name = "" THEN @ ELSE name, !.text = IF text = "" THEN @ ELSE text]], [ok |-> TRUE])
Note(key, v) == made' = made /\ To([S EXCEPT !.d.notes = Merge(@, key :> v)], [before |-> IF key \in DOMAIN d.notes THEN d.notes[key] ELSE ""])
(* -- spending ----------------------------------------------------------------------------------- *)
Now == 1000000000   (* after every lock there is but those of a day far away *)
Choosable(k) == {p \in DOMAIN w.utxo : (conf.unc \/ p[1] \notin w.ptx) /\ (k.sel = <<>> \/ p \in Set(k.sel)) /\ (k.from = "" \/ w.utxo[p][1] = k.from)}
Spendable(k) == {p \in Choosable(k) : w.utxo[p][3] <= Now /\ (conf.patience = 0 \/ p \notin w.used)}
Asked(k) == IF k.k = "vt" THEN Total([i \in 1..Len(k.outs) |-> k.outs[i][2]]) ELSE k.reward
Worth(ps) == Total([i \in 1..Len(ps) |-> w.utxo[ps[i]][2]])
Change(k, ins) == LET v == Worth(ins) - Asked(k) - k.fee  to == IF k.k = "vt" THEN Name("I", w.ni) ELSE w.utxo[ins[1]][1] IN IF v > 0 THEN <<<<to, v, 0>>>> ELSE <<>>
(* these inputs are right: own ones that may be spent, in the order asked for, and no more than it takes *)
Fit(k, ins) ==
  LET f == Spendable(k)  n == Len(ins)  need == Asked(k) + k.fee IN
  /\ n > 0 /\ Set(ins) \subseteq f /\ Cardinality(Set(ins)) = n
  /\ Worth(ins) >= need /\ Worth(SubSeq(ins, 1, n - 1)) < need
  /\ k.by = "big" => (\A i \in 1..(n - 1) : w.utxo[ins[i]][2] >= w.utxo[ins[i + 1]][2]) /\ \A p \in f \ Set(ins) : w.utxo[p][2] <= w.utxo[ins[n]][2]
  /\ k.by = "small" => (\A i \in 1..(n - 1) : w.utxo[ins[i]][2] <= w.utxo[ins[i + 1]][2]) /\ \A p \in f \ Set(ins) : w.utxo[p][2] >= w.utxo[ins[n]][2]
Coins(q) == Sum([p \in q |-> w.utxo[p][2]])
Poor(k) == Coins(Spendable(k)) < Asked(k) + k.fee
Sent(k, ins) == [res |-> "ok", fee |-> k.fee, fit |-> TRUE, ins |-> ins, outs |-> k.outs \o Change(k, ins), meta |-> [i \in 1..Len(ins) |-> w.utxo[ins[i]][2]]]
(* with these inputs, <<>>: it cannot be done *)
Send(k, ins) ==
  IF Asked(k) + k.fee = 0 THEN ins = <<>> /\ made' = made /\ To(S, [res |-> "zero"])
  ELSE IF Poor(k) THEN ins = <<>> /\ made' = made /\ To(S, [res |-> "poor", all |-> Coins(Choosable(k)), free |-> Coins(Spendable(k)), need |-> Asked(k) + k.fee])
  ELSE /\ Fit(k, ins)
       /\ To(IF k.preview \/ k.k # "vt" THEN S ELSE GenI(S, ""), Sent(k, ins))
       /\ made' = Merge(made, k.t :> [t |-> k.t, k |-> k.k, n |-> 0, ins |-> ins, outs |-> k.outs \o Change(k, ins), meta |-> [i \in 1..Len(ins) |-> w.utxo[ins[i]][2]]])
(* a transaction is on its way: its inputs are set aside, and it is seen at once *)
Local0(t) ==
  LET s1 == IF t.k \in {"vt", "dr"} /\ \E o \in Set(t.outs) : o[1] = Name("I", w.ni) THEN GenI(S, "") ELSE S
      s2 == [s1 EXCEPT !.w.used = @ \cup Set(Ins(t))]
      m == Movement(s2, t, "", 0, FALSE)
      old == IF t.t \in DOMAIN w.locals THEN w.locals[t.t].amt ELSE 0
  IN  IF Concerns(s2, t) THEN To([s2 EXCEPT !.w.locals = Merge(@, t.t :> m), !.w.local = @ - old + m.amt], [m |-> <<m>>]) ELSE To(s2, [m |-> <<>>])
Local(x) == LET ts == Resolved(<<x>>) IN made' = made /\ IF ts = <<>> THEN To(S, [m |-> <<>>]) ELSE Local0(ts[1])
(* -- what there is to see ------------------------------------------------------------------------ *)
UtxoView == {<<p[1], p[2]>> \o w.utxo[p] : p \in DOMAIN w.utxo}
Pendings == FoldLeft(LAMBDA q, p : q \o p.moves, <<>>, SortSeq(w.pend, LAMBDA x, y : x.snap.at[1] < y.snap.at[1]))
Updates == FoldLeft(LAMBDA f, p : FoldLeft(LAMBDA g, m : Merge(g, m.id :> m), f, p.upd), <<>>, w.pend)
(* newest first, but in a page the pending ones, like the local ones, are the oldest first *)
Listed(page) ==
  LET ps == Pendings  np == Len(ps)  nl == Cardinality(DOMAIN w.locals)  up == Updates
      from(i) == ((nl + i - 1) \div page) * page   (* the virtual place at which the page of the i-th pending begins *)
      lo(i) == IF from(i) - nl + 1 < 1 THEN 1 ELSE from(i) - nl + 1
      hi(i) == IF from(i) + page - nl > np THEN np ELSE from(i) + page - nl
      pend == [i \in 1..np |-> LET j == lo(i) + hi(i) - i IN ps[np + 1 - j]]
      disk == [i \in 1..d.next |-> LET n == d.next - i IN IF n \in DOMAIN up THEN up[n] ELSE d.mov[n]]
  IN  pend \o disk
Addresses(c, n) == [i \in 1..n |-> LET x == Info(S, Name(c, n - i)) IN <<Name(c, n - i), x.amt, x.pays, x.first, x.last, x.label>>]
(* -- what has to hold ------------------------------------------------------------------------------ *)
Signed(q) == FoldLeft(LAMBDA t, m : IF m.up THEN t + m.amt ELSE t - m.amt, 0, q)
(* the movements tell where every coin of the balances came from and went to *)
Explained == /\ w.unc[1] + w.unc[2] = Sum([p \in DOMAIN w.utxo |-> w.utxo[p][2]])
             /\ d.bal[1] + d.bal[2] = Sum([p \in DOMAIN d.utxo |-> d.utxo[p][2]])
             /\ d.bal[1] + d.bal[2] = Signed([i \in 1..d.next |-> d.mov[i - 1]])
             /\ w.unc[1] + w.unc[2] = d.bal[1] + d.bal[2] + Signed(Pendings)
             /\ w.unc[3] = Sum(w.stakes) /\ w.conf = d.bal
             /\ w.local = Sum([t \in DOMAIN w.locals |-> w.locals[t].amt])
             /\ w.next = d.next + Len(Pendings)
WalletInv == dirty \/ Explained
=============================================================================
