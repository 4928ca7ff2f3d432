-------------------------------- MODULE Peers --------------------------------
(* The addresses of other nodes: heard of (new), reached (tried), or set aside for a while (ice).
   The place of an address in a bucket is drawn by the node's key; the draw is given. *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt, TLC
VARIABLES new, tried, ice, clock, up, res,
          world   (* [tried: address -> place, new: address -> source -> place, nobody: addresses of no host, own, period] *)
peerVars == <<new, tried, ice, clock, up, res, world>>
PeersInit(w) == world = w /\ new = <<>> /\ tried = <<>> /\ ice = <<>> /\ clock = 0 /\ up = FALSE /\ res = <<>>
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Drop(f, ks) == [x \in DOMAIN f \ ks |-> f[x]]
PlaceTried(a) == world.tried[a]
PlaceNew(a, src) == world.new[a][src]
Nobody(a) == \E i \in 1..Len(world.nobody) : world.nobody[i] = a
(* until the node has caught up the ice holds for half an hour, whatever the configuration *)
Hours == IF up THEN world.period ELSE 1
Frozen(f, a) == a \in DOMAIN f /\ f[a] >= clock - Hours
Melt(f, a) == IF a \in DOMAIN f /\ ~Frozen(f, a) THEN Drop(f, {a}) ELSE f
Is(f, k, a) == k \in DOMAIN f /\ f[k][1] = a

(* what is heard takes the place of what was there, unless it has been reached, is set aside, is oneself or nobody *)
Hear1(s, a, src) ==
  IF Nobody(a) \/ a = world.own THEN s
  ELSE LET i == Melt(s.ice, a)
           k == PlaceNew(a, IF src = 0 THEN a ELSE src)
       IN  IF Frozen(s.ice, a) \/ Is(tried, PlaceTried(a), a) THEN [s EXCEPT !.ice = i]
           ELSE [new |-> Put(s.new, k, <<a, clock>>), ice |-> i, out |-> IF k \in DOMAIN s.new THEN Append(s.out, s.new[k][1]) ELSE s.out]
Hear(as, src) == \E s \in {FoldLeft(LAMBDA r, a : Hear1(r, a, src), [new |-> new, ice |-> ice, out |-> <<>>], as)} :
                   new' = s.new /\ ice' = s.ice /\ res' = s.out /\ UNCHANGED <<tried, clock, up, world>>
Reach(a) == /\ UNCHANGED <<new, clock, up, world>>
            /\ IF Nobody(a) THEN UNCHANGED <<tried, ice>> /\ res' = <<>>
               ELSE /\ ice' = Melt(ice, a)
                    /\ IF Frozen(ice, a) THEN tried' = tried /\ res' = <<>>
                       ELSE /\ tried' = Put(tried, PlaceTried(a), <<a, clock>>)
                            /\ res' = (IF PlaceTried(a) \in DOMAIN tried THEN <<tried[PlaceTried(a)][1]>> ELSE <<>>)
Lose1(s, a, aside) == [tried |-> IF Is(s.tried, PlaceTried(a), a) THEN Drop(s.tried, {PlaceTried(a)}) ELSE s.tried,
                       ice |-> IF aside THEN Put(s.ice, a, clock) ELSE s.ice,
                       out |-> IF Is(s.tried, PlaceTried(a), a) THEN Append(s.out, a) ELSE s.out]
Lose(as, aside) == \E s \in {FoldLeft(LAMBDA r, a : Lose1(r, a, aside), [tried |-> tried, ice |-> ice, out |-> <<>>], as)} :
                     tried' = s.tried /\ ice' = s.ice /\ res' = s.out /\ UNCHANGED <<new, clock, up, world>>
Forget(ks) == \E s \in {FoldLeft(LAMBDA r, k : [new |-> Drop(r.new, {k}), out |-> IF k \in DOMAIN r.new THEN Append(r.out, r.new[k][1]) ELSE r.out], [new |-> new, out |-> <<>>], ks)} :
                new' = s.new /\ res' = s.out /\ UNCHANGED <<tried, ice, clock, up, world>>
Freeze(a) == ice' = Put(ice, a, clock) /\ res' = <<>> /\ UNCHANGED <<new, tried, clock, up, world>>
Thaw(as) == ice' = Drop(ice, as) /\ res' = <<>> /\ UNCHANGED <<new, tried, clock, up, world>>
(* what has been set aside for long enough comes back *)
Melted == {a \in DOMAIN ice : ~Frozen(ice, a)}
MeltAll == /\ ice' = Drop(ice, Melted) /\ res' = SetToSortSeq(Melted, <) /\ UNCHANGED <<new, tried, clock, up, world>>
Check(a) == /\ ice' = Melt(ice, a) /\ res' = <<Frozen(ice, a)>> /\ UNCHANGED <<new, tried, clock, up, world>>
(* to the second: set aside, and asked for so many seconds after (or before) the end of the time *)
Edge(a, d) == ice' = Drop(ice, {a}) /\ res' = <<d <= 0, d <= 0>> /\ UNCHANGED <<new, tried, clock, up, world>>
Pass(n) == clock' = clock + n /\ res' = <<>> /\ UNCHANGED <<new, tried, ice, up, world>>
Up(b) == up' = b /\ res' = <<>> /\ UNCHANGED <<new, tried, ice, clock, world>>
Clear(what) == /\ new' = (IF what = "new" THEN <<>> ELSE new) /\ tried' = (IF what = "tried" THEN <<>> ELSE tried)
               /\ ice' = (IF what = "ice" THEN <<>> ELSE ice) /\ res' = <<>> /\ UNCHANGED <<clock, up, world>>

(* what may be given away of so many: the right number, of both, and nothing twice *)
Count(s, a) == Cardinality({i \in 1..Len(s) : s[i] = a})
Holding(f, a) == Cardinality({k \in DOMAIN f : f[k][1] = a})
Total == Cardinality(DOMAIN new) + Cardinality(DOMAIN tried)
Drawn(n, given) ==
  /\ Len(given) = (IF n < Total THEN n ELSE Total)
  /\ \E k \in 0..Len(given) : \A a \in {given[i] : i \in 1..Len(given)} :
       /\ Count(SubSeq(given, 1, k), a) <= Holding(new, a)
       /\ Count(SubSeq(given, k + 1, Len(given)), a) <= Holding(tried, a)
(* -- what has to hold ------------------------------------------------------------------------ *)
PeersInv == /\ \A k \in DOMAIN tried : PlaceTried(tried[k][1]) = k /\ ~Nobody(tried[k][1])
            /\ \A k \in DOMAIN new : (\E s \in DOMAIN world.new[new[k][1]] : PlaceNew(new[k][1], s) = k) /\ ~Nobody(new[k][1]) /\ new[k][1] # world.own
            /\ Cardinality({tried[k][1] : k \in DOMAIN tried}) = Cardinality(DOMAIN tried)
=============================================================================
