-------------------------------- MODULE Utxo --------------------------------
(***************************************************************************)
(* The set of unspent outputs (data_structures/src/utxo_pool).              *)
(*                                                                         *)
(* The node keeps the unspent outputs of the chain it follows.  What is     *)
(* older than the last confirmed superblock is on disk, the rest is a       *)
(* difference in memory, and the block under validation is a difference on  *)
(* top of both.  Here each of those is a whole set, so that "the pool is    *)
(* what the blocks say" and "a restart goes back to what was persisted" are *)
(* immediate.  Output identifiers are unique: a spent output is never       *)
(* created again in the same history.                                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

VARIABLES
  conf,   \* id -> [o, v, n]: on disk; owner, value, number of the block
  live,   \* id -> [o, v, n]: the chain
  snap,   \* <<>> or <<id -> [o, v, n], used, mark>>: the chain when the last superblock was built
  blk,    \* <<>> or <<additions, spent, number>>: block under validation
  used, usedC,   \* identifiers created up to now, and up to what is on disk
  mark, markC,   \* chain state written along with the outputs: last block, and last block on disk
  res

utxoVars == <<conf, live, snap, blk, used, usedC, mark, markC, res>>

None == [k \in {} |-> 0]
Without(f, S) == [k \in DOMAIN f \ S |-> f[k]]
With(f, k, x) == [j \in DOMAIN f \cup {k} |-> IF j = k THEN x ELSE f[j]]
Over(f, g) == [j \in DOMAIN f \cup DOMAIN g |-> IF j \in DOMAIN g THEN g[j] ELSE f[j]]

UtxoInit == /\ conf = None /\ live = None /\ snap = <<>> /\ blk = <<>> /\ used = {} /\ usedC = {}
            /\ mark = 0 /\ markC = 0 /\ res = "ok"

(* The block under validation sees the chain, plus what it creates, minus what it spends. *)
Seen == IF blk = <<>> THEN live ELSE Without(Over(live, blk[1]), blk[2])
BlkUsed == IF blk = <<>> THEN {} ELSE DOMAIN blk[1] \cup blk[2]

Begin(n) == /\ blk = <<>> /\ blk' = <<None, {}, n>> /\ res' = "ok"
            /\ UNCHANGED <<conf, live, snap, used, usedC, mark, markC>>
Create(k, o, v, n) ==
   /\ blk # <<>> /\ k \notin used \cup BlkUsed
   /\ blk' = [blk EXCEPT ![1] = With(@, k, [o |-> o, v |-> v, n |-> IF n = 0 THEN blk[3] ELSE n])]
   /\ res' = "ok" /\ UNCHANGED <<conf, live, snap, used, usedC, mark, markC>>
Spend(k) ==
   /\ blk # <<>> /\ k \in DOMAIN Seen
   /\ blk' = IF k \in DOMAIN blk[1] THEN [blk EXCEPT ![1] = Without(@, {k})] ELSE [blk EXCEPT ![2] = @ \cup {k}]
   /\ res' = "ok" /\ UNCHANGED <<conf, live, snap, used, usedC, mark, markC>>
Discard == /\ blk # <<>> /\ blk' = <<>> /\ res' = "ok"
           /\ UNCHANGED <<conf, live, snap, used, usedC, mark, markC>>
(* Outputs created and spent inside one block leave no trace at all, so that they may not count as used. *)
Consolidate ==
   /\ blk # <<>> /\ live' = Seen /\ blk' = <<>> /\ used' = used \cup DOMAIN blk[1]
   /\ mark' = mark + 1 /\ res' = "ok" /\ UNCHANGED <<conf, snap, usedC, markC>>

Snapshot == /\ blk = <<>> /\ snap' = <<live, used, mark>> /\ res' = "ok"
            /\ UNCHANGED <<conf, live, blk, used, usedC, mark, markC>>
(* A confirmed superblock puts the state it was built on on disk; the chain itself does not change. *)
Persist ==
   /\ blk = <<>> /\ snap # <<>>
   /\ conf' = snap[1] /\ usedC' = snap[2] /\ markC' = snap[3] /\ snap' = <<>> /\ res' = "ok"
   /\ UNCHANGED <<live, blk, used, mark>>
(* While synchronising, all of it goes to disk. *)
PersistAll ==
   /\ blk = <<>> /\ conf' = live /\ usedC' = used /\ markC' = mark /\ snap' = <<>> /\ res' = "ok"
   /\ UNCHANGED <<live, blk, used, mark>>
(* A restart at any time, or a write that fails, which ends the node. *)
Restart == /\ live' = conf /\ used' = usedC /\ mark' = markC /\ snap' = <<>> /\ blk' = <<>> /\ res' = "ok"
           /\ UNCHANGED <<conf, usedC, markC>>
(* Forget the chain and start again. *)
Wipe == /\ res' = "ok" /\ conf' = None /\ live' = None /\ snap' = <<>> /\ blk' = <<>>
        /\ used' = {} /\ usedC' = {} /\ mark' = 0 /\ markC' = 0
(* The pool of an old version, moved to disk. *)
Migrate(m) == /\ blk = <<>> /\ live = conf /\ DOMAIN m \cap used = {}
              /\ conf' = Over(conf, m) /\ live' = conf' /\ used' = used \cup DOMAIN m /\ usedC' = usedC \cup DOMAIN m
              /\ snap' = <<>> /\ res' = "ok" /\ UNCHANGED <<blk, mark, markC>>

Item(f, k) == <<k, f[k].o, f[k].v, f[k].n>>
Items(f) == {Item(f, k) : k \in DOMAIN f}
Owned(f, o) == {k \in DOMAIN f : f[k].o = o}
Obs(owners) ==
  [res |-> res,
   all |-> Items(live), disk |-> Items(conf), mark |-> markC,
   seen |-> {<<k, Seen[k].o, Seen[k].v>> : k \in DOMAIN Seen},
   \* the block under validation dates only what was there before it
   dated |-> {<<k, Seen[k].n>> : k \in DOMAIN Seen \cap DOMAIN live},
   own |-> {<<o, Owned(live, o), Owned(conf, o)>> : o \in owners}]

------------------------------------------------------------------------------
UtxoInv == DOMAIN live \subseteq used /\ DOMAIN conf \subseteq usedC
(* Nothing but consolidating a block, starting again or migrating changes the chain; nothing else than persisting changes the disk. *)
NoResurrection == [][\A k \in (used \cap used') \ DOMAIN live : k \in DOMAIN live' => (live' = conf \/ live' = conf')]_utxoVars
=============================================================================
