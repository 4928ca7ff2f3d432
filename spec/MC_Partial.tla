----------------------------- MODULE MC_Partial -----------------------------
EXTENDS Partial, Json, TLC
CONSTANTS MaxFields, AlsoSet, TwoPass
VARIABLES sh, hist
Field == {f \in [ty : Types, mark : Marks, pass : Pass, also : AlsoSet] : WellFormed(f)}
\* the second and later fields come from a smaller set, which still has every mark
Later == {f \in [ty : {"u32", "Inner"}, mark : Marks, pass : TwoPass, also : {"none"}] : WellFormed(f)}
Init == \E st \in {"named", "tuple", "split"}, cv \in BOOLEAN, cd \in BOOLEAN, dn \in BOOLEAN :
          /\ st # "named" => (cd = FALSE /\ dn = FALSE)
          /\ sh = [style |-> st, conv |-> cv, cdef |-> cd, deny |-> dn, fields |-> <<>>]
          /\ hist = <<>>
Open == Len(hist) = 0
Add == /\ Open /\ Len(sh.fields) < MaxFields
       /\ \E f \in (IF Len(sh.fields) = 0 THEN Field ELSE Later) :
            /\ sh.style = "tuple" => f.pass = "none"
            /\ (Len(sh.fields) > 0 => (sh.fields[1].also = "none" /\ ~sh.conv))
            /\ sh' = [sh EXCEPT !.fields = Append(@, f)]
       /\ UNCHANGED hist
Step(r) == hist' = Append(hist, r) /\ UNCHANGED sh
Cfg == [op |-> "cfg"] @@ sh
Close == /\ Open
         /\ Step(Cfg)
TypesOp == Len(hist) = 1 /\ Step([op |-> "types", exp |-> [types |-> TypesOf(sh)]])
DefaultOp == Len(hist) = 1 /\ Step([op |-> "default", exp |-> Defaults(sh)])
LoadOp == /\ Len(hist) = 1 /\ sh.style # "tuple"
          /\ \E doc \in [1..Len(sh.fields) -> {"missing", "null", "part", "full"}], x \in BOOLEAN :
               /\ (x => \A i \in 1..Len(doc) : doc[i] = "full")
               /\ Step([op |-> "load", doc |-> doc, extra |-> x, exp |-> LoadAll(sh, doc, x)])
Next == Add \/ Close \/ TypesOp \/ DefaultOp \/ LoadOp
Spec == Init /\ [][Next]_<<sh, hist>>
Emit == Len(hist') > 1 => PrintT("@@" \o ToJson(hist'))
Inv == Len(hist) = 1 => (EmptyIsDefault(sh) /\ \A doc \in [1..Len(sh.fields) -> {"missing", "null", "full"}] : PlainAcceptsAll(sh, doc))
=============================================================================
