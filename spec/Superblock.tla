----------------------------- MODULE Superblock ------------------------------
(***************************************************************************)
(* Superblocks (data_structures/src/superblock.rs): who signs the next one, *)
(* what it says, which votes count, and when there is consensus; the size   *)
(* of the committee (chain_manager); and proofs that a data request or a    *)
(* tally is under a superblock (chain/mod.rs, transaction.rs).              *)
(*                                                                         *)
(* Hashes of superblocks are numbered in the order in which they appear,    *)
(* from 1 on; 0 is the hash of the genesis superblock and numbers from 100  *)
(* on are hashes of nothing.                                                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

CONSTANT Strict     \* consensus takes two thirds, not two thirds rounded down
VARIABLES
  env,        \* [env |-> "main" or "test" or "dev", a18 |-> activation of version 1.8]
  cur, prev,  \* members of the last two lists of candidates, best first
  comm,       \* the committee
  beacon,     \* [i, h]: the superblock of this node that is being voted
  names,      \* what the superblocks with number 1, 2, .. say
  seen,       \* votes received since then: [w, h, i, s]; s tells signatures apart
  first,      \* member -> the vote that counts
  pen,        \* members that voted twice
  last,       \* the blocks of the last superblock: sequence of [id, drs, tal]
  res

sbVars == <<env, cur, prev, comm, beacon, names, seen, first, pen, last, res>>
Elems(s) == {s[i] : i \in 1..Len(s)}
Without(f, S) == [k \in DOMAIN f \ S |-> f[k]]
With(f, k, x) == [j \in DOMAIN f \cup {k} |-> IF j = k THEN x ELSE f[j]]
Nobody == [k \in {} |-> 0]
Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b

SbInit(e, boot) ==
  /\ env = e /\ cur = boot /\ prev = boot /\ comm = Elems(boot) /\ beacon = [i |-> 0, h |-> 0]
  /\ names = <<>> /\ seen = {} /\ first = Nobody /\ pen = {} /\ last = <<>> /\ res = "ok"

(* Committees that are part of the protocol. *)
Fixed(a, n) == {a + k : k \in 1..n}
Emergency(i) == CASE i \in 751..1343      -> Fixed(910, 7)
                  [] i \in 44166..45508   -> Fixed(920, 6)
                  [] i \in 144201..145499 -> Fixed(930, 7)
                  [] i \in 224301..304895 -> Fixed(940, 6)
                  [] OTHER -> {}
HardFork2(ep) == env.env # "main" \/ ep >= 376320

RECURSIVE BytesMod(_, _, _, _)
BytesMod(b, n, k, acc) == IF k > Len(b) THEN acc ELSE BytesMod(b, n, k + 1, (acc * 256 + b[k]) % n)

(* d = what the hashes at stake look like: [dg |-> bytes of the hash of superblock and index,
   hb |-> first byte of the hash of the superblock, xb |-> first byte of the hash of the index] *)
Chosen(list, size, ep, d) ==
  LET n == Len(list)
      each == n \div size
      from == IF HardFork2(ep) THEN BytesMod(d.dg, n, 1, 0) ELSE (d.hb + d.xb) % n
      off(k) == IF HardFork2(ep) THEN d.dg[(k % Len(d.dg)) + 1] % each ELSE 0
  IN  IF n < size THEN Elems(list)
      ELSE {list[((from + k * each + off(k)) % n) + 1] : k \in 0..(size - 1)}
Committee(list, size, idx, ep, d) ==
  CASE env.env = "test" -> Fixed(960, 4)
    [] env.env = "main" /\ idx > 304896 -> Fixed(950, 12)
    [] env.env = "main" /\ idx <= 304896 /\ Emergency(idx) # {} -> Emergency(idx)
    [] OTHER -> Chosen(list, size, ep, d)

(* Blocks: [id, drs, tal], the latter two say how many transactions of that kind.  No transactions, no name. *)
Tag(id, n) == IF n = 0 THEN 0 ELSE id
Says(new, keys, blocks, n, idx, ep, lastb) ==
  [len |-> n, keys |-> SelectSeq(new, LAMBDA x : x \in keys), idx |-> idx, prev |-> lastb,
   drs |-> [k \in 1..Len(blocks) |-> Tag(blocks[k].id, blocks[k].drs)],
   tal |-> [k \in 1..Len(blocks) |-> Tag(blocks[k].id, blocks[k].tal)],
   last |-> IF blocks = <<>> THEN <<0, lastb>>
            ELSE <<IF ep >= env.a18 THEN 2 ELSE 1, blocks[Len(blocks)].id>>,
   sync |-> 0]
Synced(len, idx, lastb) == [len |-> len, keys |-> <<>>, idx |-> idx, prev |-> lastb, drs |-> <<>>, tal |-> <<>>, last |-> <<0, lastb>>, sync |-> 1]
NameOf(s) == IF s \in Elems(names) THEN CHOOSE k \in 1..Len(names) : names[k] = s ELSE Len(names) + 1
Named(s) == IF s \in Elems(names) THEN names ELSE Append(names, s)

(* ---------------------------------------------------------------- votes *)
VotesFor(f, h) == Cardinality({w \in DOMAIN f : f[w].h = h})
Hashes(f) == {f[w].h : w \in DOMAIN f}
Needed(n) == IF Strict THEN (2 * n + 2) \div 3 ELSE (2 * n) \div 3
Enough(v, n) == v >= Needed(n)

Vote(v, now) ==
  LET valid == v.i = now /\ v.w \in comm
      twice == v.w \in pen \/ (v.w \in DOMAIN first /\ first[v.w].i = v.i /\ first[v.w].h # v.h)
  IN  /\ seen' = seen \cup {v}
      /\ UNCHANGED <<env, cur, prev, comm, beacon, names, last>>
      /\ IF v \in seen THEN res' = "seen" /\ UNCHANGED <<first, pen>>
         ELSE IF valid /\ twice THEN res' = "double" /\ first' = Without(first, {v.w}) /\ pen' = pen \cup {v.w}
         ELSE IF valid THEN /\ res' = (IF v.h = beacon.h THEN "same" ELSE "other")
                            /\ first' = (IF v.w \in DOMAIN first THEN first ELSE With(first, v.w, v))
                            /\ UNCHANGED pen
         ELSE /\ UNCHANGED <<first, pen>>
              /\ res' = (IF v.i = now THEN "out" ELSE IF v.i = now + 1 THEN "maybe"
                         ELSE IF prev = <<>> THEN "out" ELSE "index")

(* What the votes say: "same", "unknown", "none", or the number of another superblock.  A set, as there may be ties. *)
Verdicts ==
  LET n == Cardinality(comm)
      top == {h \in Hashes(first) : \A g \in Hashes(first) : VotesFor(first, g) <= VotesFor(first, h)}
      missing == n - Cardinality(DOMAIN first) - Cardinality(pen)
      say(h) == IF Enough(VotesFor(first, h), n) THEN (IF h = beacon.h THEN <<"same">> ELSE <<"different", h>>)
                ELSE IF Enough(VotesFor(first, h) + missing, n) THEN <<"unknown">> ELSE <<"none">>
  IN  IF comm = {} THEN {<<"same">>} ELSE IF top = {} THEN {<<"unknown">>} ELSE {say(h) : h \in top}

(* ---------------------------------------------------------------- building *)
(* b: [ars, keys, size, idx, last, ep, blocks, sync], sync = <<>> or <<length of the committee>> *)
Size(b) == IF b.sync = <<>> THEN b.size ELSE b.sync[1]
BuiltCommittee(b, d) == Committee(cur, Size(b), b.idx, b.ep, d)
Built(b, d) == IF b.sync # <<>> THEN Synced(b.sync[1], b.idx, b.last)
               ELSE Says(b.ars, b.keys, b.blocks, Cardinality(BuiltCommittee(b, d)), b.idx, b.ep, b.last)
(* What a node would build, without building it. *)
Peek(b, d) == names' = Named(Built(b, d)) /\ res' = "ok"
              /\ UNCHANGED <<env, cur, prev, comm, beacon, seen, first, pen, last>>
(* The votes that came early count now, those for other superblocks are gone.  Of votes that only differ in the
   signature any may be kept. *)
Build(b, d, f) ==
  LET c == BuiltCommittee(b, d)
      early == {v \in seen : v.i = b.idx /\ v.w \in c}
      voters == {v.w : v \in early}
      twice == {w \in voters : \E v, u \in early : v.w = w /\ u.w = w /\ v.h # u.h}
  IN  /\ DOMAIN f = voters \ twice /\ \A w \in DOMAIN f : f[w] \in early /\ f[w].w = w
      /\ prev' = cur /\ cur' = b.ars /\ comm' = c
      /\ names' = Named(Built(b, d)) /\ beacon' = [i |-> b.idx, h |-> NameOf(Built(b, d))]
      /\ seen' = {} /\ first' = f /\ pen' = twice /\ last' = b.blocks /\ res' = "ok"
      /\ UNCHANGED env

(* ---------------------------------------------------------------- proofs *)
RECURSIVE Path(_, _)   \* on which side are the siblings of leaf i out of n, bottom up
Path(n, i) == IF n <= 1 THEN <<>>
              ELSE IF i % 2 = 0 /\ i + 1 >= n THEN Path((n + 1) \div 2, i \div 2)
              ELSE <<i % 2>> \o Path((n + 1) \div 2, i \div 2)
RECURSIVE Number(_)
Number(bits) == IF bits = <<>> THEN 0 ELSE Head(bits) + 2 * Number(Tail(bits))
(* The k-th transaction of the b-th block: its data, and where that is under the superblock. *)
Proof(b, k, kind) ==
  LET n == IF b > Len(last) THEN 0 ELSE IF kind = "dr" THEN last[b].drs ELSE last[b].tal
      bits == <<0>> \o Path(n, k - 1) \o Path(Len(last), b - 1)
  IN  IF k > n THEN <<>> ELSE <<Number(bits), Len(bits)>>
Prove(b, k, kind) == res' = Proof(b, k, kind) /\ UNCHANGED <<env, cur, prev, comm, beacon, names, seen, first, pen, last>>
Ask == res' = "ok" /\ UNCHANGED <<env, cur, prev, comm, beacon, names, seen, first, pen, last>>

(* ---------------------------------------------------------------- size of the committee *)
(* The longer no superblock is confirmed, the smaller the committee; afterwards it recovers, step by step. *)
CommitteeSize(std, was, period, step, confirmed, now, boot, min) ==
  IF confirmed <= boot THEN std
  ELSE IF now - confirmed >= period THEN Max2(Max2(was - ((now - confirmed) \div period) * step, 0), Max2(min, 1))
  ELSE Min2(was + step, std)
LastBoot(age, active, period) == (age + active) \div period

(* ---------------------------------------------------------------- properties *)
OneVoteEach == /\ DOMAIN first \cap pen = {} /\ DOMAIN first \cup pen \subseteq comm
               /\ \A w \in DOMAIN first : first[w].w = w
(* Two superblocks are never confirmed at a time, in committees of other sizes than 2 and 4 (KNOWN-FINDING). *)
NoTwo == Cardinality(comm) \notin {2, 4} =>
           \A h, g \in Hashes(first) : Enough(VotesFor(first, h), Cardinality(comm)) /\ Enough(VotesFor(first, g), Cardinality(comm)) => h = g
OneVerdict == Cardinality(comm) \notin {2, 4} => Cardinality(Verdicts) = 1
SbInv == OneVoteEach /\ NoTwo
(* A verdict of lack of consensus is final, and one of consensus can only be lost by members that vote twice. *)
Final == [][(seen # {} /\ seen' # {} /\ comm' = comm /\ beacon' = beacon) =>
            /\ (Verdicts = {<<"none">>} => Verdicts' = {<<"none">>})
            /\ (pen' = pen /\ ~ (<<"unknown">> \in Verdicts) => Verdicts \subseteq Verdicts')]_sbVars
PenaltyStays == [][beacon' = beacon => pen \subseteq pen']_sbVars
=============================================================================
