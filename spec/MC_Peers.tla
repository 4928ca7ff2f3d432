------------------------------ MODULE MC_Peers ------------------------------
EXTENDS Peers, Json
CONSTANTS Addrs, Srcs, MaxOps
VARIABLES hist
(* the places are those of tools/checks/network.py: 1 and 2 share one in tried, 1 and 3 one in new *)
W == [sk |-> 7, names |-> <<"10.1.0.1:21337", "10.1.0.156:21337", "10.1.0.44:21337", "10.2.0.1:21337", "10.3.0.9:21337", "0.0.0.0:21337">>,
      own |-> 5, nobody |-> <<6>>, period |-> 2, tried |-> <<2608, 2608, 1506, 2495, 3746, 471>>,
      new |-> <<<<11380, 11380, 11380, 223, 9776, 4607>>, <<11366, 11366, 11366, 218, 9776, 4579>>, <<11384, 11384, 11384, 223, 9758, 4551>>, <<11380, 11380, 11380, 11002, 11827, 240>>, <<11356, 11356, 11356, 4216, 2132, 12614>>, <<9713, 9713, 9713, 13555, 1674, 12611>>>>]
Buckets(f) == {<<k, f[k][1], f[k][2]>> : k \in DOMAIN f}
Exp == [res |-> res', new |-> Buckets(new'), tried |-> Buckets(tried'), ice |-> {<<a, ice'[a]>> : a \in DOMAIN ice'}, right |-> TRUE, any |-> DOMAIN new' # {}]
H(r) == hist' = Append(hist, r @@ [exp |-> Exp])
Init == PeersInit(W) /\ hist = <<[op |-> "cfg"] @@ W>>
Ops ==
  \/ \E a \in Addrs, s \in Srcs : Hear(<<a>>, s) /\ H([op |-> "hear", as |-> <<a>>, src |-> s])
  \/ \E a \in Addrs : Reach(a) /\ H([op |-> "reach", a |-> a])
  \/ \E a \in Addrs, x \in {TRUE, FALSE} : Lose(<<a>>, x) /\ H([op |-> "lose", as |-> <<a>>, aside |-> x])
  \/ \E a \in Addrs : Forget(<<W.new[a][4]>>) /\ H([op |-> "forget", ks |-> <<W.new[a][4]>>])
  \/ \E a \in Addrs : Freeze(a) /\ H([op |-> "freeze", a |-> a])
  \/ \E a \in Addrs : Thaw({a}) /\ H([op |-> "thaw", as |-> <<a>>])
  \/ MeltAll /\ H([op |-> "melt"])
  \/ \E a \in Addrs : Check(a) /\ H([op |-> "check", a |-> a])
  \/ clock < 4 /\ \E n \in 1..2 : Pass(n) /\ H([op |-> "pass", n |-> n])
  \/ Up(TRUE) /\ H([op |-> "up", b |-> TRUE])
Next == Len(hist) <= MaxOps /\ Ops
Spec == Init /\ [][Next]_<<peerVars, hist>>
View == <<new, tried, ice, clock, up>>
Emit == PrintT("@@" \o ToJson(hist'))
=============================================================================
