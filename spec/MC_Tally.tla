------------------------------ MODULE MC_Tally ------------------------------
EXTENDS Tally, Json
CONSTANTS Size, Mins, Few
VARIABLES hist
I(n) == <<"i", n>>
Http(n) == Err("HttpStatus", n)
Items == {I(0 - 3), I(4), I(5), <<"f", 24>>, <<"a", <<I(1), I(2)>>>>, Http(404), Err("RetrieveTimeout", 0), <<"x", 0>>}
No == [op |-> 8, arg |-> "none", s |-> 0]
Dev(s) == [op |-> 5, arg |-> "number", s |-> s]
Scripts == {[filters |-> <<>>, reducer |-> 2], [filters |-> <<>>, reducer |-> 3], [filters |-> <<>>, reducer |-> 5], [filters |-> <<No>>, reducer |-> 2], [filters |-> <<Dev(4)>>, reducer |-> 3],
            [filters |-> <<Dev(6), No>>, reducer |-> 3], [filters |-> <<[No EXCEPT !.op = 1]>>, reducer |-> 3], [filters |-> <<[No EXCEPT !.op = 5]>>, reducer |-> 5], [filters |-> <<>>, reducer |-> 1]}
Wips == {[w9 |-> TRUE, w17 |-> TRUE, w18 |-> TRUE, w19 |-> TRUE, w26 |-> TRUE], [w9 |-> FALSE, w17 |-> FALSE, w18 |-> FALSE, w19 |-> FALSE, w26 |-> FALSE]}
Q(rs, m, c, t, w) == [op |-> "tally", reveals |-> rs, min |-> m, commits |-> c, many |-> FALSE, t |-> t, w |-> w]
Init == TallyInit /\ hist = <<[op |-> "cfg"]>>
Next == /\ Len(hist) = 1
        /\ \/ \E n \in 0..Size : \E rs \in [1..n -> Items] : \E m \in Mins : \E c \in {n, n + 1} : \E t \in Scripts : \E w \in Wips :
                (n = Size => (m = 51 \/ ~Few) /\ (w.w9 \/ ~Few) /\ (c = n \/ ~Few)) /\ \E q \in {Q(rs, m, c, t, w)} : Tallied(q) /\ \E e \in {res'} : hist' = Append(hist, q @@ [exp |-> e])
           \/ \E q \in {[Q(<<I(4)>>, 51, 1, [filters |-> <<>>, reducer |-> 2], w) EXCEPT !.many = TRUE] : w \in Wips} : Tallied(q) /\ hist' = Append(hist, q @@ [exp |-> res'])
Spec == Init /\ [][Next]_<<res, hist>>
Q1 == hist[2]
Same == Len(hist) = 2 =>
  /\ Len(res.liars) = Len(Q1.reveals) /\ (Q1.w.w9 => Len(res.errors) = Len(Q1.reveals))
  (* a value only if more than the least of those that committed were in it *)
  /\ (Q1.w.w9 /\ ~IsErr(res.v)) => 100 * Cardinality({i \in DOMAIN res.liars : ~res.liars[i]}) > Q1.min * Q1.commits
  (* an error never accuses anybody of lying without calling it an error *)
  /\ (Q1.w.w9 /\ IsErr(res.v) /\ res.v[2] \in {"InsufficientConsensus", "TallyExecution", "TooManyWitnesses"}) => \A i \in DOMAIN res.liars : res.liars[i] = res.errors[i]
  (* whoever reveals first makes no difference *)
  /\ LET n == Len(Q1.reveals)  r == Agreed(Reverse(Q1.reveals), Q1.min, Q1.commits, Q1.many, Q1.t, Q1.w)
     IN  res.sharp => r.v = res.v /\ r.liars = Reverse(res.liars) /\ r.errors = Reverse(res.errors)
Emit == hist' = hist \/ PrintT("@@" \o ToJson(hist'))
=============================================================================
