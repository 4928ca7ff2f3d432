------------------------------ MODULE Versions ------------------------------
(* Versions of the protocol: which one rules an epoch, when each one begins, and what it allows. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES regs, now        (* <<version, epoch, seconds>> as registered, the one in use *)
versionVars == <<regs, now>>
(* 1, 2, 3, 4 stand for 1.7, 1.8, 2.0 and 2.1 *)
All == 1..4
VersionsInit == regs = <<>> /\ now = 1
Of(v) == {i \in 1..Len(regs) : regs[i][1] = v}
Known(v) == Of(v) # {}
From(v) == regs[CHOOSE i \in Of(v) : \A j \in Of(v) : j <= i][2]
Seconds(v) == IF Known(v) THEN regs[CHOOSE i \in Of(v) : \A j \in Of(v) : j <= i][3] ELSE 65535
(* the last that has begun; of two that begin together the one registered later *)
Begun(e) == {i \in 1..Len(regs) : regs[i][2] <= e}
Better(i, j) == regs[i][2] > regs[j][2] \/ (regs[i][2] = regs[j][2] /\ i >= j)
At(e) == IF Begun(e) = {} THEN 1 ELSE regs[CHOOSE i \in Begun(e) : \A j \in Begun(e) : Better(i, j)][1]
Start(v) == IF Known(v) THEN From(v) ELSE -1
Register(v, e, s) == regs' = Append(regs, <<v, e, s>>) /\ UNCHANGED now
Clear == regs' = <<>> /\ now' = 1
Use(v) == now' = v /\ UNCHANGED regs
Refresh(e) == now' = At(e) /\ UNCHANGED regs
(* when a version begins by the clock; -1 if nobody can tell yet *)
Span(v) == LET a == IF Known(v - 1) THEN From(v - 1) ELSE 0 IN IF From(v) > a THEN From(v) - a ELSE 0
Length(v, p) == IF v = 1 THEN p ELSE Seconds(v)
Told(v) == \A w \in 2..v : Known(w)
Began(v, z, p) == IF ~Told(v) THEN -1
  ELSE z + (IF v >= 2 THEN Span(2) * Length(1, p) ELSE 0) + (IF v >= 3 THEN Span(3) * Length(2, p) ELSE 0) + (IF v = 4 THEN Span(4) * Length(3, p) ELSE 0)
(* what the rules are at an epoch: weights of stakes and unstakes, seconds of delay, minimum and maximum stake and reward in wits, factors *)
Rules(e, env) == LET v == At(e) IN
  <<IF v = 1 THEN 0 ELSE IF env = "test" THEN 10000000 ELSE 20000, IF v < 3 THEN 0 ELSE 5000, IF v < 3 THEN 0 ELSE IF env = "main" THEN 1209600 ELSE 3600,
    IF v = 1 THEN 0 ELSE 10000, IF v = 1 THEN 0 ELSE 10000000, IF v < 3 THEN 0 ELSE 50>>
Factor(e, before) == IF At(e) < 3 \/ e < before THEN 0 ELSE IF e - before > 13 THEN 65535 ELSE 4 * 2^(e - before)
Fixed(env) == <<20, IF env = "main" THEN 300000000 ELSE 30000000, IF env = "main" THEN 13440 ELSE 101, IF env = "main" THEN 13440 ELSE 80, IF env = "main" THEN 1000 ELSE 80>>
(* -- what has to hold ------------------------------------------------------------------------ *)
(* a version that begins after the others never goes back *)
Forward(es) == (\A i, j \in 1..Len(regs) : i < j => regs[i][1] < regs[j][1] /\ regs[i][2] <= regs[j][2]) =>
                  \A a, b \in es : a <= b => At(a) <= At(b)
=============================================================================
