---------------------------- MODULE MC_Versions ----------------------------
EXTENDS Versions, Json
CONSTANTS Epochs, MaxOps
VARIABLES hist
Asked == <<0, 1, 4, 5, 6, 9, 10, 11, 100>>
Envs == <<"main", "test", "dev">>
Seen == [now |-> now, start |-> [v \in All |-> Start(v)], secs |-> [v \in All |-> Seconds(v)], began |-> [v \in All |-> Began(v, 1000, 45)]]
Ask == [seen |-> Seen, at |-> [i \in 1..9 |-> At(Asked[i])]]
Init == VersionsInit /\ hist = <<[op |-> "cfg", z |-> 1000, p |-> 45]>>
H(r) == hist' = Append(hist, r)
Step == \/ \E v \in All, e \in Epochs, s \in {20, 30} : ~Known(v) /\ Register(v, e, s) /\ H([op |-> "register", v |-> v, e |-> e, s |-> s])
        \/ Clear /\ H([op |-> "clear"])
        \/ \E v \in All : Use(v) /\ H([op |-> "use", v |-> v])
        \/ \E e \in {0, 5, 50} : Refresh(e) /\ H([op |-> "refresh", e |-> e])
        \/ UNCHANGED versionVars /\ hist[Len(hist)].op # "reload" /\ H([op |-> "reload"])
Next == hist[Len(hist)].op # "ask" /\ (\/ Len(hist) <= MaxOps /\ Step
                                       \/ UNCHANGED versionVars /\ hist' = Append(hist, [op |-> "ask", es |-> Asked, fs |-> <<>>, exp |-> Ask]))
Spec == Init /\ [][Next]_<<versionVars, hist>>
View == <<versionVars, hist[Len(hist)].op \in {"ask", "reload"}, hist[Len(hist)].op = "ask">>
Inv == Forward({0, 4, 5, 9, 10, 11})
Emit == hist'[Len(hist')].op = "ask" => PrintT("@@" \o ToJson(hist'))
=============================================================================
