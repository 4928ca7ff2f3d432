------------------------------- MODULE Flatten -------------------------------
(***************************************************************************)
(* Flattening nested results of a future (futures_utils/src/lib.rs).        *)
(* The future is pending for a while, then resolves: to a value, to an      *)
(* inner or to an outer error.  The flattened one is pending exactly as     *)
(* long, polls the original once per poll of its own, and resolves to the   *)
(* same value, or to the error converted by the conversion of its own kind. *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES left, kind, payload, polled, out
fVars == <<left, kind, payload, polled, out>>
FInit(n, k, p) == left = n /\ kind = k /\ payload = p /\ polled = 0 /\ out = [ready |-> FALSE, ok |-> FALSE, from |-> "", val |-> 0, polls |-> 0, wakes |-> 0]
Poll ==
  /\ ~out.ready
  /\ polled' = polled + 1
  /\ UNCHANGED <<kind, payload>>
  /\ IF left > 0
     THEN left' = left - 1 /\ out' = [ready |-> FALSE, ok |-> FALSE, from |-> "", val |-> 0, polls |-> polled', wakes |-> polled']
     ELSE left' = left /\ out' = [ready |-> TRUE, ok |-> kind = "ok", from |-> kind, val |-> payload, polls |-> polled', wakes |-> polled]
Wakes == out.wakes <= polled
=============================================================================
