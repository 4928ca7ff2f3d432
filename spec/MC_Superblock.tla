---------------------------- MODULE MC_Superblock -----------------------------
EXTENDS Superblock, Json, TLC
CONSTANTS People, Foreign, Sigs, Lists, Late, MaxOps, MaxBuilds
Times == IF Late THEN {<<0, 0>>, <<1, 0>>, <<1, 1>>} ELSE {<<0, 0>>}
VARIABLES hist
\* committees are everybody on the list here, so that hashes do not matter
D0 == [dg |-> <<0>>, hb |-> 0, xb |-> 0]
List(n) == [k \in 1..n |-> k]
BuildOp(n, m) == [ars |-> List(n), keys |-> {}, size |-> 99, idx |-> beacon.i + 1, last |-> 5000, ep |-> 200,
                  blocks |-> [k \in 1..m |-> [id |-> k, drs |-> 1, tal |-> 0]], sync |-> <<>>]
VoteSet(f) == {f[w] : w \in DOMAIN f}
Exp == [res |-> res, comm |-> comm, beacon |-> <<beacon.i, beacon.h>>, verdicts |-> Verdicts, votes |-> VoteSet(first), known |-> seen]
H(r) == hist' = Append(hist, r @@ [exp |-> Exp'])
Init == \E n \in Lists : SbInit([env |-> "dev", a18 |-> 100], List(n)) /\ hist = <<[op |-> "cfg", env |-> "dev", a18 |-> 100, boot |-> List(n)]>>
Next == Len(hist) <= MaxOps /\
  \/ \E w \in People, h \in {beacon.h, Len(names)} \cup Foreign, s \in Sigs, t \in Times :
       LET v == [w |-> w, h |-> h, i |-> beacon.i + t[1], s |-> s]
       IN  Vote(v, beacon.i + t[2]) /\ H([op |-> "vote", now |-> beacon.i + t[2]] @@ v)
  \/ \E n \in Lists, m \in {0, 1} : beacon.i < MaxBuilds /\ Peek(BuildOp(n, m), D0) /\ H([op |-> "peek"] @@ BuildOp(n, m))
  \/ \E n \in Lists, m \in {0, 1} : beacon.i < MaxBuilds /\
       LET b == BuildOp(n, m)
           early == {v \in seen : v.i = b.idx /\ v.w \in BuiltCommittee(b, D0)}
           voters == {v.w : v \in early}
           once == {w \in voters : \A v, u \in early : v.w = w /\ u.w = w => v.h = u.h}
       IN  \* of two signatures of the same vote, either may stay
           \E f \in [once -> early] : Build(b, D0, f) /\ H([op |-> "build"] @@ b)
Spec == Init /\ [][Next]_<<sbVars, hist>>
View == <<env, cur, prev, comm, beacon, names, seen, first, pen, last>>
Emit == PrintT("@@" \o ToJson(hist'))
=============================================================================
