------------------------------ MODULE MC_Tapi ------------------------------
EXTENDS Tapi, Json
CONSTANTS Slots, Ends, MaxEpoch, MaxOps
VARIABLES hist
SlotsQ == {[b |-> 0, w |-> "a", init |-> 1, period |-> 3], [b |-> 2, w |-> "b", init |-> 2, period |-> 5], [b |-> 31, w |-> "a", init |-> 0, period |-> 1]}
SlotsT == SlotsQ \cup {[b |-> 1, w |-> "WIP0028", init |-> 3, period |-> 2]}
(* words of every epoch near the last one *)
Eps == <<last, last + 1, last + 20, last + 21, last + 22, last + 23>>
Ask == [obs |-> Seen, voting |-> [i \in 1..6 |-> Voting(Eps[i])], eps |-> Eps,
        on |-> [i \in 1..6 |-> {w \in DOMAIN force : InForce(force, w, Eps[i])}]]
H(r) == hist' = Append(hist, r)
Init == TapiInit /\ \E avoid \in {{}, {"a"}} : hist = <<[op |-> "cfg", avoid |-> avoid]>>
InUse == {slots[b].w : b \in DOMAIN slots}
Step ==
  \/ \E s \in Slots, end \in Ends : /\ s.b \notin DOMAIN slots /\ Offer(s.b, [w |-> s.w, init |-> s.init, period |-> s.period, end |-> end, votes |-> 0])
                                    /\ H([op |-> "insert", b |-> s.b, w |-> s.w, init |-> s.init, period |-> s.period, end |-> end])
  \/ \E b \in {0, 2, 31} : b \in DOMAIN slots /\ Withdraw(b) /\ H([op |-> "remove", b |-> b])
  \/ \E bits \in SUBSET DOMAIN slots, e \in (last + 1)..(last + 4), avoid \in {hist[1].avoid} :
       /\ DOMAIN slots # {} /\ e <= MaxEpoch /\ Vote(bits, e, e, avoid)
       /\ H([op |-> "vote", bits |-> bits, e |-> e, at |-> e, avoid |-> avoid])
Next == \/ Len(hist) <= MaxOps /\ hist[Len(hist)].op # "ask" /\ Step
        \/ hist[Len(hist)].op # "ask" /\ hist' = Append(hist, [op |-> "ask", eps |-> Eps, exp |-> Ask]) /\ UNCHANGED tapiVars
Spec == Init /\ [][Next]_<<tapiVars, hist>>
View == <<tapiVars, hist[1], hist[Len(hist)].op = "ask">>
Emit == hist'[Len(hist')].op = "ask" => PrintT("@@" \o ToJson(hist'))
=============================================================================
