------------------------------ MODULE MC_Blocks ------------------------------
(* Every block out of a menu, in every version, after every other one. *)
EXTENDS Blocks, Json, TLC
CONSTANTS Depth, Eras, Main
VARIABLES hist, at

In(i, k, g) == <<i, k, g>>
Base == [a18 |-> 20, a20 |-> 40, a21 |-> 60, main |-> Main, bn |-> 50, maxvt |-> 986, maxdr |-> 2000, cmin |-> 2, reward |-> 64, halv |-> 30, drw |-> 84,
         utxo |-> <<<<1, 40, 0, 7>>, <<1, 3, 0, 9>>, <<2, 12, T0, 8>>, <<2, 30, T0 + 5000, 6>>>>,
         stakes |-> <<>>]
Bonds == <<<<1, 2, 10, 5>>, <<2, 1, 25, 6>>, <<3, 2, 9995, 7>>, <<4, 1, 12, 6>>>>
Cfg(e) == IF e >= 18 THEN [Base EXCEPT !.stakes = Bonds] ELSE Base
First(e) == CASE e = 17 -> 10 [] e = 18 -> 20 [] e = 20 -> 40 [] e = 21 -> 60
Delay == IF Main = 1 THEN 1209600 ELSE 3600

VtMenu == {[ins |-> i, outs |-> o, xs |-> x] :
             i \in {<<In(1, 1, 1)>>, <<In(2, 1, 1), In(3, 2, 1)>>, <<In(1, 1, 1), In(2, 1, 1)>>, <<In(4, 2, 1)>>, <<In(5, 2, 1)>>},
             o \in {<<>>, <<<<1, 3, 0>>>>, <<<<2, 30, 7>>, <<1, 13, T0>>>>}, x \in {0}}
          \cup {[ins |-> i, outs |-> <<<<1, 1, 0>>>>, xs |-> x] :
             i \in {<<In(1, 1, 1)>>, <<In(1, 2, 1)>>, <<In(1, 1, 0)>>, <<In(1, 1, 1), In(1, 1, 1)>>, <<>>}, x \in {0, 1, 2}}
DrMenu == {[ins |-> <<In(1, 1, 1)>>, outs |-> o, w |-> w, r |-> r, f |-> f, q |-> 60, c |-> c, xs |-> 0] :
             o \in {<<>>, <<<<1, 28, 0>>>>, <<<<2, 4, 0>>>>}, w \in {1, 3}, r \in {2, 4}, f \in {0, 1}, c \in {0, 1, 251}}
StMenu == {[ins |-> <<In(1, 1, 1)>>, v |-> k[1], wd |-> k[2], val |-> n, auth |-> 1, chg |-> c, xs |-> 0] :
             k \in {<<1, 2>>, <<3, 2>>, <<4, 3>>, <<9, 3>>}, n \in {9, 10, 40}, c \in {<<>>, <<<<1, 5, 0>>>>}}
UtMenu == {[v |-> k[1], k |-> k[2], good |-> 1, to |-> k[3], val |-> n, fee |-> f, n |-> m, l |-> d] :
             k \in {<<1, 2, 2>>, <<2, 1, 1>>, <<2, 2, 2>>, <<2, 1, 2>>}, n \in {0, 10, 15, 24}, f \in {0, 1}, m \in {5, 6}, d \in {Delay, Delay - 1}}

None == {<<>>}
One(S) == {<<x>> : x \in S}
Shapes == {[vts |-> a, drs |-> <<>>, sts |-> <<>>, uts |-> <<>>] : a \in None \cup One(VtMenu)}
     \cup {[vts |-> <<>>, drs |-> a, sts |-> <<>>, uts |-> <<>>] : a \in One(DrMenu)}
     \cup {[vts |-> <<>>, drs |-> <<>>, sts |-> a, uts |-> <<>>] : a \in One(StMenu)}
     \cup {[vts |-> <<>>, drs |-> <<>>, sts |-> <<>>, uts |-> a] : a \in One(UtMenu)}
Few == {t \in VtMenu : t.xs = 0 /\ t.outs # <<>> /\ t.ins # <<>> /\ Len(t.ins) < 3}
Pairs == {[vts |-> <<a>>, drs |-> <<>>, sts |-> <<b>>, uts |-> <<>>] : a \in Few, b \in {t \in StMenu : t.val = 10}}
    \cup {[vts |-> <<a>>, drs |-> <<b>>, sts |-> <<>>, uts |-> <<>>] : a \in Few, b \in {t \in DrMenu : t.c = 0 /\ t.f = 1}}
    \cup {[vts |-> <<a, b>>, drs |-> <<>>, sts |-> <<>>, uts |-> <<>>] : a, b \in Few}
    \cup {[vts |-> <<>>, drs |-> <<>>, sts |-> <<a>>, uts |-> <<b>>] : a \in {t \in StMenu : t.val = 10}, b \in {t \in UtMenu : t.l = Delay}}
(* Not explored: what is recorded with key=age-chained. *)
NoChain(s) == \A i \in 1..Len(s.vts) : \A j \in 1..Len(s.vts[i].ins) : s.vts[i].ins[j][1] < next
NoChainSt(s) == \A i \in 1..Len(s.sts) : \A j \in 1..Len(s.sts[i].ins) : s.sts[i].ins[j][1] < next

Mints(s) == LET f == Run([s EXCEPT !.ep = @]) IN
   IF ~f.ok THEN {<<>>}
   ELSE LET pay == f.fee + Reward(s.ep) IN
        {<<>>} \cup (IF pay > 0 /\ pay < MAXV THEN {<<<<1, pay, s.ep>>>>, <<<<1, pay + 1, s.ep>>>>} ELSE {})

H(r) == hist' = Append(hist, r @@ [exp |-> Obs'])
Init == /\ hist \in {<<[op |-> "cfg"] @@ Cfg(e) @@ [exp |-> 0]>> : e \in Eras}
        /\ at \in {First(e) : e \in Eras}
        /\ \E e \in Eras : hist[1] = [op |-> "cfg"] @@ Cfg(e) @@ [exp |-> 0] /\ at = First(e)
        /\ BlocksInit([k \in DOMAIN hist[1] \ {"op", "exp"} |-> hist[1][k]])
Go(s) == LET b0 == [op |-> "block", ep |-> at, root |-> 0] @@ s IN
         \E m \in Mints(b0) : LET b == b0 @@ [mint |-> [ep |-> at, outs |-> m]] IN Block(b) /\ H(b)
Next == Len(hist) <= Depth /\ at' = at + 1 /\ \E s \in Shapes \cup Pairs : NoChain(s) /\ NoChainSt(s) /\ Go(s)
Spec == Init /\ [][Next]_<<vars, hist, at>>
View == <<utxo, stk, next, bn, at, ok, cfg>>
Emit == PrintT("@@" \o ToJson(hist'))

Inv == Conserved /\ (at >= 20 => StakesValid)
(* No output is spent twice, and none comes back. *)
Fresh == [][\A x \in DOMAIN utxo' : x \in DOMAIN utxo \/ x >= next]_<<vars, hist, at>>
=============================================================================
