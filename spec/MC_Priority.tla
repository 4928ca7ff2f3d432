------------------------------ MODULE MC_Priority ------------------------------
(* Every short sequence of blocks, each seen a number of times, and what is advised then. *)
EXTENDS Priority
CONSTANT Runs
VARIABLES x, n
mcVars == <<x, n>>
One(v, w) == [k \in Kinds |-> IF v = 0 \/ k # "vt" THEN [hi |-> 0, lo |-> -1] ELSE [hi |-> v + w, lo |-> v]]
RECURSIVE Times(_, _, _)
Times(y, s, m) == IF m = 0 THEN y ELSE Times(Push(y, s), s, m - 1)
Init == x = Fresh(25) /\ n = 0
Next == n < Runs /\ n' = n + 1 /\ \E v \in {0, 50, 500, 2500}, w \in {0, 50}, m \in {1, 7, 20} : x' = Times(x, One(v, w), m)
Spec == Init /\ [][Next]_mcVars
Rules == PriorityInv(x) /\ (Len(x.q) >= Enough => \A secs \in {45, 6000} : Sensible(x, secs))
=============================================================================
