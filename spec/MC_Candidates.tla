---------------------------- MODULE MC_Candidates ----------------------------
EXTENDS Candidates, Json, TLC
CONSTANTS Hashes, Draws, Reps, Powers_
VARIABLES hist
C == [h : Hashes, rep : Reps, vrf : Draws, act : BOOLEAN, pow : Powers_]
Targets == {<<>>, <<1>>, <<1, 2>>, <<0, 1, 3>>}
ASSUME \A t \in Targets, v2 \in BOOLEAN : Order(t, v2, [h : Hashes, rep : {0, 1}, vrf : Draws, act : BOOLEAN, pow : {1, 2}])
ASSUME \A t \in {0, 1, 2, 3, 9}, f \in {1, 2, 3}, d \in {0, 1, 5}, w \in BOOLEAN, e \in {1, 9} : SlotsGrow(Slots(t, f, f + 3, e, d, 4, w))
Init == hist = <<[op |-> "cfg"]>>
Next == /\ Len(hist) = 1
        /\ \E t \in Targets, v2 \in BOOLEAN, a, b \in C :
              hist' = Append(hist, [op |-> "order", t |-> t, v2 |-> v2, cs |-> <<a, b>>, exp |-> [m |-> Matrix(t, v2, <<a, b>>), best |-> Best(t, v2, <<a, b>>)]])
Spec == Init /\ [][Next]_hist
Emit == PrintT("@@" \o ToJson(hist'))
=============================================================================
