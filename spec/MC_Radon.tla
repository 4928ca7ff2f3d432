------------------------------ MODULE MC_Radon ------------------------------
(* Every operator on a sample of every kind of value, bare and with every list of arguments of a sample, alone or after another *)
EXTENDS Radon, Json
CONSTANTS Brief
VARIABLES hist
S(s) == <<"s", s>>
F(n) == <<"f", n>>
B(b) == <<"y", b>>
A(s) == <<"a", s>>
Mx == Whole(FALSE, MaxD)
Mn == Whole(TRUE, MinD)
Wide == Whole(TRUE, Two64)
Abc == S(<<97, 98, 99>>)
Odd == S(<<97, 233, 8364>>)
Ints == {Num(0), Num(1), Num(0 - 1), Num(7), Num(0 - 12), Num(255), Mx, Mn, Wide}
Texts == {S(<<>>), S(<<97>>), Odd, S(<<49, 44, 53>>), S(<<45, 55>>), S(<<116, 114, 117, 101>>), S(<<48, 97>>)}
Arrays == {A(<<>>), A(<<Num(3), Num(0 - 1), Num(3)>>), A(<<S(<<98>>), S(<<97>>)>>), A(<<Num(1), S(<<97>>)>>), A(<<A(<<Num(2)>>), A(<<Num(1)>>)>>), A(<<Mx, Mn, Mn>>), A(<<A(<<Mx>>), A(<<Mn>>), A(<<Mn>>)>>), A(<<A(<<Num(1)>>), A(<<S(<<97>>)>>)>>), A(<<F(8), F(0 - 16)>>), A(<<B(<<1>>), <<"b", TRUE>>>>)}
Maps == {<<"m", <<>>>>, <<"m", <<<<<<97>>, Num(5)>>, <<<<98>>, S(<<49, 44, 53>>)>>>>>>, <<"m", <<<<<<>>, A(<<Num(1)>>)>>>>>>}
Inputs == Ints \cup Texts \cup Arrays \cup Maps \cup {F(0), F(24), F(0 - 8), <<"b", TRUE>>, B(<<>>), B(<<1, 2>>), B(<<195, 169>>), B([i \in 1..16 |-> 255]), B([i \in 1..17 |-> 1])}
Opcodes == {0, 16, 17, 19, 20, 21, 22, 23, 24, 25, 26, 27, 29, 32, 34, 47, 48, 49, 50, 52, 60, 64, 65, 66, 67, 68, 70, 71, 72, 73, 74, 80, 81, 82, 83, 84, 85, 86, 87, 88, 89, 91, 93,
          97, 98, 99, 100, 101, 102, 103, 104, 105, 112, 113, 114, 115, 116, 117, 121, 122, 123, 124, 125, 255}
Self == <<"p", <<>>>>
Lists == {<<>>, <<Num(0)>>, <<Num(1)>>, <<Num(2)>>, <<Num(3)>>, <<Num(127)>>, <<Num(0 - 1)>>, <<Num(1), Num(2)>>, <<Num(0), Num(0 - 1)>>, <<S(<<97>>)>>, <<S(<<>>)>>, <<S(<<44>>), S(<<46>>)>>, <<F(16)>>, <<Self>>, <<<<"p", <<<<"c", 66>>>>>>>>, <<<<"p", <<<<"k", 27, <<Num(2)>>>>>>>>>>,
          <<<<"p", <<<<"k", 67, <<Num(2)>>>>>>>>>>, <<Num(5), Num(1)>>, <<Num(17)>>, <<Num(1), S(<<44>>)>>, <<<<"m", <<<<<<97>>, Num(1)>>>>>>, Num(9)>>, <<<<"b", TRUE>>>>}
Calls == {<<"c", c>> : c \in Opcodes} \cup {<<"k", c, l>> : c \in Opcodes \ {0}, l \in Lists} \cup {<<"none">>, <<"neg">>, <<"text">>}
Some == {c \in Calls : Len(c) = 2 \/ (Len(c) = 3 /\ c[3] \in {<<Num(1)>>, <<S(<<97>>)>>, <<Self>>, <<Num(0), Num(0 - 1)>>})}
After == {<<"c", 16>>, <<"c", 32>>, <<"c", 66>>, <<"c", 115>>, <<"c", 72>>, <<"k", 74, <<Num(1)>>>>, <<"k", 27, <<Num(2)>>>>, <<"k", 27, <<Num(3)>>>>, <<"k", 29, <<>>>>, <<"c", 105>>, <<"k", 124, <<Num(0), Num(2)>>>>}
W0 == [w24 |-> TRUE, new |-> TRUE, w17 |-> TRUE, w18 |-> TRUE, w19 |-> TRUE, w26 |-> TRUE, w9 |-> TRUE]
Q(v, s, w) == [op |-> "script", v |-> v, script |-> s, w |-> w, ws |-> 0]
Init == ScriptInit /\ hist = <<[op |-> "cfg"]>>
Step(q) == Scripted(q) /\ \E e \in {res'} : hist' = Append(hist, q @@ [exp |-> [v |-> e, murky |-> Murky(e), back |-> Back(e)]])
Next == /\ Len(hist) = 1
        /\ \E v \in Inputs :
             \/ \E s \in {<<>>} \cup {<<c>> : c \in Calls} : Step(Q(v, s, W0))
             \/ \E c \in Calls : ~Brief /\ Step(Q(v, <<c>>, [W0 EXCEPT !.new = FALSE, !.w24 = FALSE]))
             \/ \E c \in Some : ~Brief /\ \E d \in After : Step(Q(v, <<c, d>>, W0))
Spec == Init /\ [][Next]_<<res, hist>>
RECURSIVE Held(_)
Held(v) == CASE v[1] = "i" -> Fits(v[2], v[3]) /\ (v[3] = <<>> \/ v[3][Len(v[3])] # 0) [] v[1] = "a" -> \A i \in 1..Len(v[2]) : Held(v[2][i])
             [] v[1] = "m" -> (\A i \in 1..Len(v[2]) : Held(v[2][i][2])) /\ \A i \in 2..Len(v[2]) : v[2][i - 1][1] # v[2][i][1] [] v[1] = "y" -> \A i \in 1..Len(v[2]) : v[2][i] \in 0..255 [] OTHER -> TRUE
Times1(s, x) == Cardinality({i \in 1..Len(s) : s[i] = x})
Shuffled(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : Times1(a, a[i]) = Times1(b, a[i])
Part(a, b) == FoldLeft(LAMBDA k, x : IF k < Len(a) /\ a[k + 1] = x THEN k + 1 ELSE k, 0, b) = Len(a)
Q1 == hist[2]
Laws == (Len(hist) = 2 /\ ~Murky(res)) =>
  LET v == Q1.v  s == Q1.script  w == Q1.w  one == Len(s) = 1  code == IF one /\ Len(s[1]) > 1 THEN s[1][2] ELSE 999
  IN  (* whatever comes out is a value of some kind, of 128 bits where it is a number; no script makes something of an error *)
      /\ Held(res) /\ Run(E("X"), s, w) = E("X")
      (* doing it in two steps is doing it *)
      /\ s # <<>> /\ Unpack(s) = "" => Run(Run(v, SubSeq(s, 1, 1), w), Tail(s), w) = res
      /\ (one /\ ~IsErr(res)) =>
           /\ code = 29 => Shuffled(res[2], v[2])
           /\ code = 29 /\ s[1][3] = <<>> /\ v[2] # <<>> /\ v[2][1][1] = "i" => \A i \in 2..Len(v[2]) : ~Below(res[2][i], res[2][i - 1])
           /\ code = 17 => Part(res[2], v[2])
           /\ code = 26 => Len(res[2]) = Len(v[2])
           /\ code = 27 /\ s[1][3] = <<Num(2)>> => \E i \in 1..Len(v[2]) : v[2][i] = res
           /\ code = 64 => ~res[2]
           /\ code \in {67, 68} => res[1] = "b"
           /\ code = 66 /\ v[1] = "i" => AsInt(res) = v
           (* bytes of a number are its sixteen; they say what number it is *)
           /\ code = 74 /\ v[1] = "i" => Len(res[2]) = 16
           /\ code = 72 /\ v[1] = "i" => Run(res, s, w) = v
           /\ code = 113 => TRUE
           /\ code = 124 => Len(res[2]) <= Len(v[2])
           /\ code \in {121, 122} /\ v[1] = "s" => Run(res, s, w) = res
           /\ code = 104 => Len(res[2]) = Len(v[2])
      /\ (v[1] = "i" /\ one /\ code = 74 /\ s[1][1] = "k" /\ ~IsErr(res)) => Run(v, <<s[1], <<"k", 50, s[1][3]>>>>, w) = v
Emit == hist' = hist \/ PrintT("@@" \o ToJson(hist'))
=============================================================================
