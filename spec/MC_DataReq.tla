----------------------------- MODULE MC_DataReq -----------------------------
EXTENDS DataReq, Json, TLC
CONSTANTS Ids, Whos, Extras, Vals, MaxOps
VARIABLES hist, v
P(d) == CASE d = 1 -> [n |-> 2, reward |-> 10, fee |-> 3, col |-> 0] [] d = 2 -> [n |-> 1, reward |-> 7, fee |-> 1, col |-> 50]
          [] OTHER -> [n |-> 5, reward |-> 7, fee |-> 0, col |-> 5]
Ep(d) == CASE d = 1 -> 5 [] d = 2 -> 1003 [] OTHER -> 1009
O == Obs(11, {4, 5, 1003, 5000}, v, 4, 1000)
H(r) == hist' = Append(hist, r @@ [exp |-> O' @@ [res |-> res']])
HD(r, x) == hist' = Append(hist, r @@ [exp |-> O' @@ [res |-> "ok", done |-> x]])
Init == \E x \in Extras : DqInit(x) /\ v \in Vals /\ hist = <<[op |-> "cfg", extra |-> x, mincol |-> 11, eps |-> {4, 5, 1003, 5000}, vals |-> v, div |-> 4, v2at |-> 1000]>>
Next == Len(hist) <= MaxOps /\ UNCHANGED v /\
  \/ \E d \in Ids : d \notin DOMAIN drs /\ ~ (\E i \in 1..Len(done) : done[i].id = d) /\ Request(d, Ep(d), P(d))
                     /\ H([op |-> "request", id |-> d, ep |-> Ep(d)] @@ P(d))
  \/ \E d \in Ids, w \in Whos : Cardinality(IF d \in DOMAIN drs THEN drs[d].cms \cup {w} ELSE {}) <= P(d).n /\ Commit(d, w) /\ H([op |-> "commit", id |-> d, who |-> w])
  \/ \E d \in Ids, w \in Whos : (d \in DOMAIN drs => w \in drs[d].cms) /\ Reveal(d, w) /\ H([op |-> "reveal", id |-> d, who |-> w])
  \/ \E d \in Ids : Tally(d) /\ H([op |-> "tally", id |-> d])
  \/ \E d \in Ids, w \in Whos : d \in DOMAIN drs \ DOMAIN own /\ Keep(d, w) /\ H([op |-> "keep", id |-> d, who |-> w])
  \/ \E e \in {6, 1500} : NewEpoch(v, 4, e >= 1000) /\ H([op |-> "epoch", e |-> e])
  \/ Finished /\ HD([op |-> "finished"], done)
  \/ Reload /\ H([op |-> "reload"])
Spec == Init /\ [][Next]_<<dqVars, v, hist>>
View == <<extra, drs, own, done, v>>
Emit == PrintT("@@" \o ToJson(hist'))
=============================================================================
