----------------------------- MODULE MC_Inventory -----------------------------
(* Every short history of keeping, spoiling and asking, with the database      *)
(* failing at any of its writes.  The histories are scripts for the real node. *)
EXTENDS Inventory, Json
CONSTANTS Words, Steps
VARIABLES x, hist
mcVars == <<x, hist>>
B(n) == [k |-> "block", n |-> n]
S(n, v) == [k |-> "super", n |-> n, v |-> v]
T(t, b, k, i) == [k |-> "tx", n |-> t, p |-> [b |-> b, k |-> k, i |-> i]]
Add(es, fail) == [op |-> "add", es |-> es, one |-> Len(es) = 1, fail |-> fail]
G(k, n, any) == [op |-> "get", k |-> k, n |-> n, any |-> any, fail |-> 0]
N(op, n) == [op |-> op, n |-> n, fail |-> 0]
Many == [op |-> "blocks", ns |-> <<5, 1, 2, 1>>, fail |-> 0]
All == [op |-> "supers", fail |-> 0]
Keep == {Add(<<B(1)>>, f) : f \in 0..9} \cup {Add(<<B(5), B(1), S(2, 1)>>, f) : f \in {0, 1, 2, 3, 4, 10, 11}}
        \cup {Add(<<B(5)>>, 0), Add(<<S(10, 1), S(9, 2)>>, 0), Add(<<S(10, 2)>>, 1), Add(<<S(9, 1)>>, 0), Add(<<T(1, 5, "vt", 0)>>, 0), Add(<<T(8, 5, "mint", 0), B(1)>>, 0), Add(<<>>, 0)}
        \cup {N("drop", 1), N("drop", 5), Many, All}
Ask == {Add(<<B(1)>>, 0), Add(<<B(2), T(9, 1, "vt", 1)>>, 0), Add(<<T(1, 77, "vt", 0)>>, 0), Add(<<S(2, 2)>>, 0), N("old", 1), N("old", 2), [op |-> "garble", n |-> 1, len |-> 263, fail |-> 0], N("drop", 1), Many, All,
        G("block", 1, TRUE), G("tx", 1, TRUE), G("tx", 9, FALSE), G("super", 2, TRUE), G("super", 3, FALSE), G("chain", 0, FALSE), N("state", 1), N("state", 2)}
        \cup {[op |-> "former", n |-> 2, v |-> v, fail |-> 0] : v \in {0, 2, 3, 4, 6}} \cup {[op |-> "other", key |-> k, n |-> 4, fail |-> 0] : k \in {"SUPERBLOCK-2", "chain-2-key"}}
        \cup {[op |-> "read", key |-> "chain-2-key", fail |-> 0]}
Outcome(y, o) == IF o.fail = 0 \/ o.op # "add" THEN Do(y, o) ELSE IF o.fail > Len(Writes(o.es)) THEN Do(y, o) ELSE Failed(y, o, o.fail - 1)
Init == x = Fresh /\ hist = <<>>
Next == \E o \in (IF Words = "keep" THEN Keep ELSE Ask) : x' = Outcome(x, o) /\ hist' = Append(hist, o)
Spec == Init /\ [][Next]_mcVars
Short == (TLCGet("level") - 1) < Steps
View == <<x, TLCGet("level")>>
Rules == InventoryInv(x)
(* keeping is forever: what is kept is never given up except by who spoils it *)
Grows == [][\A b \in x.kept : b \in x'.kept \/ x'.spoiled]_mcVars
Emit == PrintT("@@" \o ToJson(hist'))
=============================================================================
