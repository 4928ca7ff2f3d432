-------------------------------- MODULE Clock --------------------------------
(* Epochs and times, and what an epoch pays.  All quantities are 64-bit words (see Words). *)
EXTENDS Words, TLC
VARIABLES p, z, v2        (* seconds of an epoch, start of epoch 0; <<seconds, epoch, start>> since wit/2, or <<>> *)
clockVars == <<p, z, v2>>
ClockInit(seconds, start) == p = seconds /\ z = start /\ v2 = <<>>
None == <<>>
Times(e, k) == MulSat(OfInt(e), k)
(* the start of an epoch, if it can be told *)
Before2(e) == AddWord(z, Times(e, p))
Later(e) == v2 # <<>> /\ e >= v2[2]
Stamp(e) == IF ~Small(Times(e, p)) THEN None
            ELSE IF Later(e) THEN AddWord(v2[3], Times(e - v2[2], v2[1])) ELSE Before2(e)
Period(e) == IF Stamp(e) = None THEN -1 ELSE IF Later(e) THEN v2[1] ELSE p
Mining(e) == IF Stamp(e) = None THEN None ELSE AddWord(Stamp(e), OfInt((Period(e) + 1) \div 2))
(* the epoch of a time *)
EpochAt(t) ==
  IF v2 # <<>> /\ ~Below(t, v2[3])
  THEN LET d == SubWord(t, v2[3]) IN IF Small(d) THEN AddWord(OfInt(v2[2]), DivWord(d, v2[1])) ELSE None
  ELSE IF Below(t, z) THEN None
  ELSE LET d == SubWord(t, z) IN IF Small(d) THEN DivWord(d, p) ELSE None
(* wit/2 begins with an epoch *)
Begin(seconds, e) == /\ v2 = <<>>
                     /\ v2' = (IF Small(Times(e, p)) THEN <<seconds, e, Before2(e)>> ELSE <<>>)
                     /\ UNCHANGED <<p, z>>
(* what a block earns, and all of them together *)
Reward(first, e, halving) == IF e \div halving > 63 THEN OfInt(0) ELSE Halve(first, e \div halving)
Total(first, halving) == FoldLeft(LAMBDA a, i : [left |-> DivWord(a.left, 2), sum |-> AddWord(a.sum, MulSat(a.left, halving))],
                                  [left |-> first, sum |-> OfInt(0)], [i \in 1..64 |-> i]).sum
(* -- what has to hold ------------------------------------------------------------------------ *)
(* every second is of one epoch, and epochs follow each other *)
ClockInv(es) == \A e \in es : /\ EpochAt(Stamp(e)) = OfInt(e)
                              /\ e > 0 => EpochAt(SubWord(Stamp(e), OfInt(1))) = OfInt(e - 1) /\ Below(Stamp(e - 1), Stamp(e))
                              /\ EpochAt(Mining(e)) = OfInt(e) \/ Period(e) = 1
=============================================================================
