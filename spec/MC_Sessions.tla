---------------------------- MODULE MC_Sessions ----------------------------
EXTENDS Sessions, Json
CONSTANTS Addrs, Lims, MaxOps
VARIABLES hist
(* 1 and 2 are of one range of 16 bits, 3 of another; 3 is one's own *)
Names == <<"10.1.0.1:5", "10.1.0.2:5", "10.2.0.1:5">>
R(a) == [i \in 1..33 |-> IF i = 17 THEN (IF a = 3 THEN <<10, 2, 0, 0>> ELSE <<10, 1, 0, 0>>) ELSE <<>>]
Exp == [res |-> done', iu |-> List(s'["iu"]), ic |-> List(s'["ic"]), ou |-> List(s'["ou"]), oc |-> List(s'["oc"]), cc |-> List(s'["cc"])]
H(r) == hist' = Append(hist, r @@ [exp |-> Exp])
(* asked by a leave of nobody *)
Asked == [similar |-> [a \in 1..3 |-> Similar(a)], eligible |-> [a \in 1..3 |-> Eligible(a)], outs |-> Outbound, ins |-> Size(s["ic"]),
          needed |-> Needed, missing |-> Missing]
Init == /\ \E q \in Lims, p \in Lims :
              /\ s = [k \in {"iu", "ic", "ou", "oc", "cc"} |-> <<>>] /\ limit = [k \in {"ic", "oc"} |-> IF k = "ic" THEN q ELSE p] /\ own = 3 /\ bits = 16 /\ done = ""
              /\ range = [a \in 1..3 |-> R(a)]
              /\ hist = <<[op |-> "cfg", names |-> Names], [op |-> "bits", n |-> 16], [op |-> "limits", i |-> q, o |-> p], [op |-> "address", a |-> 3]>>
Ops ==
  \/ \E x \in {"i", "o"}, a \in Addrs : Register(x, a, Len(hist)) /\ H([op |-> "register", side |-> x, a |-> a, ref |-> Len(hist)])
  \/ \E x \in {"i", "o"}, p \in {"u", "c"}, a \in Addrs : Leave(x, p, a) /\ H([op |-> "leave", side |-> x, part |-> p, a |-> a])
  \/ \E x \in {"i", "o"}, a \in Addrs : Consolidate(x, a) /\ H([op |-> "consolidate", side |-> x, a |-> a])
  \/ \E a \in Addrs : Agree(a) /\ H([op |-> "agree", a |-> a])
  \/ \E a \in Addrs : Disagree(a) /\ H([op |-> "disagree", a |-> a])
Next == \/ done # "asked" /\ Len(hist) < MaxOps + 4 /\ Ops
        \/ done \notin {"asked", ""} /\ done' = "asked" /\ UNCHANGED <<s, limit, own, bits, range>> /\ hist' = Append(hist, [op |-> "ask", exp |-> Asked])
Spec == Init /\ [][Next]_<<sessVars, hist>>
View == <<[k \in DOMAIN s |-> DOMAIN s[k]], limit, done = "asked", done = "">>
Emit == PrintT("@@" \o ToJson(hist'))
=============================================================================
