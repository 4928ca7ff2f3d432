-------------------------------- MODULE Ars --------------------------------
(***************************************************************************)
(* The active reputation set (reputation/src/ars.rs).                       *)
(*                                                                         *)
(* An identity is active iff it took part in one of the last `cap' rows of  *)
(* activity.  A row is one epoch: epochs without a block count as empty     *)
(* rows.  The specification keeps the rows themselves; the implementation   *)
(* keeps a counting cache, which is not visible here.                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

VARIABLES
  cap,    \* how many rows count
  rows,   \* Seq(SUBSET Id), oldest first, at most cap of them
  last,   \* the last epoch recorded
  ok      \* outcome of the last operation

arsVars == <<cap, rows, last, ok>>

Window(s) == IF Len(s) <= cap THEN s ELSE SubSeq(s, Len(s) - cap + 1, Len(s))
Active == UNION {rows[i] : i \in 1..Len(rows)}
Range(s) == {s[i] : i \in 1..Len(s)}

ArsInit(c) == cap = c /\ rows = <<>> /\ last = 0 /\ ok = TRUE

Push(s) == /\ rows' = Window(Append(rows, Range(s)))
           /\ ok' = TRUE
           /\ UNCHANGED <<cap, last>>

Min2(a, b) == IF a < b THEN a ELSE b
Update(s, e) ==
  \/ /\ e > last
     /\ LET holes == Min2(e - last - 1, cap)
        IN  rows' = Window(rows \o [i \in 1..holes |-> {}] \o <<Range(s)>>)
     /\ last' = e /\ ok' = TRUE /\ UNCHANGED cap
  \/ /\ e <= last /\ e = 0        \* the genesis block updates nothing
     /\ ok' = TRUE /\ UNCHANGED <<cap, rows, last>>
  \/ /\ e <= last /\ e # 0        \* time does not go backwards
     /\ ok' = FALSE /\ UNCHANGED <<cap, rows, last>>

Clear == rows' = <<>> /\ ok' = TRUE /\ UNCHANGED <<cap, last>>
Reload == ok' = TRUE /\ UNCHANGED <<cap, rows, last>>

\* a set is printed as a sorted sequence by the harness; compare as sets
Obs == [ok |-> ok, active |-> Active, n |-> Cardinality(Active)]

ArsInv == Len(rows) <= cap /\ last >= 0
(* A one-step property: whoever took part in the update is active after it, *)
(* and nobody becomes active by somebody else's activity.                   *)
OnlyActors(s) == Active' \subseteq (Active \cup Range(s))
=============================================================================
