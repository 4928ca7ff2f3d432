------------------------------ MODULE MC_Clock ------------------------------
EXTENDS Clock, Json
CONSTANTS Ps, Zs, Es
VARIABLES hist
Big == 40
Init == \E s \in Ps, t \in Zs : ClockInit(s, OfInt(t)) /\ hist = <<[op |-> "cfg", p |-> s, z |-> OfInt(t)]>>
Answers == [i \in 1..(Big + 1) |-> <<Stamp(i - 1), Mining(i - 1), OfInt(Period(i - 1))>>]
Moments == [i \in 1..150 |-> AddWord(IF i < 10 THEN OfInt(i) ELSE z, OfInt(i))]
Next == \/ Len(hist) = 1 /\ \E s \in Ps, e \in Es : Begin(s, e) /\ hist' = Append(hist, [op |-> "begin", p |-> s, e |-> e])
        \/ hist[Len(hist)].op # "ask" /\ UNCHANGED clockVars
           /\ hist' = Append(hist, [op |-> "ask", es |-> [i \in 1..(Big + 1) |-> i - 1], ts |-> Moments, rs |-> <<>>,
                                    exp |-> [epochs |-> Answers, at |-> [i \in 1..150 |-> EpochAt(Moments[i])]]])
Spec == Init /\ [][Next]_<<clockVars, hist>>
Inv == ClockInv(0..Big)
Emit == hist'[Len(hist')].op = "ask" => PrintT("@@" \o ToJson(hist'))
=============================================================================
