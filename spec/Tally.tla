------------------------------- MODULE Tally -------------------------------
(* What a request's reveals come to: the value everybody agrees on, and who was out of it.
   Values are <<type, content>>:  <<"i", n>> integers, <<"f", n>> the float n/16, <<"b", v>>, <<"s", ..>>, <<"y", bytes>>,
   <<"a", <<values>>>>, <<"m", ..>>, <<"e", name, argument>> errors, <<"x", ..>> bytes that are no value; <<"h", bytes>> is the digest of bytes. *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, TLC
VARIABLE res
Code(v) == CASE v[1] = "a" -> 0 [] v[1] = "b" -> 1 [] v[1] = "y" -> 2 [] v[1] = "h" -> 2 [] v[1] \in {"f", "nan"} -> 3 [] v[1] = "i" -> 4 [] v[1] = "m" -> 5 [] v[1] = "e" -> 6 [] v[1] \in {"s", "json", "xml"} -> 7
Err(n, x) == <<"e", n, x>>
IsErr(v) == v[1] = "e"
(* errors that have a code of their own; the others are told as unhandled, and what they said is dropped since WIP-0018 *)
Told == {"Unknown", "UnsupportedOperator", "HttpStatus", "Underflow", "Overflow", "DivisionByZero", "InsufficientCommits", "TooManyWitnesses", "NoReveals",
         "RetrieveTimeout", "InsufficientConsensus", "TallyExecution", "MalformedReveal", "EncodeReveal", "ArrayIndexOutOfBounds", "MapKeyNotFound", "RequestTooManySources"}
Intercept(v) == IF IsErr(v) /\ v[2] \notin Told \cup {"UnhandledIntercept"} THEN Err("UnhandledIntercept", 1) ELSE v
(* as it is reported: floats in 1/80640 *)
RECURSIVE Out(_)
Out(v) == CASE v[1] = "f" -> <<"F", v[2] * 5040>> [] v[1] = "a" -> <<"a", [i \in 1..Len(v[2]) |-> Out(v[2][i])]>> [] OTHER -> v
Homogeneous(vs) == \A i \in 1..Len(vs) : Code(vs[i]) = Code(vs[1])
Count(vs, v) == Cardinality({i \in 1..Len(vs) : vs[i] = v})
Top(vs) == Max({Count(vs, vs[i]) : i \in 1..Len(vs)})
Modes(vs) == {v \in ToSet(vs) : Count(vs, v) = Top(vs)}
(* the one value seen the most *)
Mode(vs) == IF vs = <<>> THEN Err("EmptyArray", 0) ELSE IF Cardinality(Modes(vs)) > 1 THEN Err("ModeTie", Top(vs)) ELSE CHOOSE v \in Modes(vs) : TRUE
Sum(vs) == FoldLeft(LAMBDA a, v : a + v[2], 0, vs)
Abs(n) == IF n < 0 THEN 0 - n ELSE n
(* to the nearest, halves away from zero *)
Round(n, d) == IF n < 0 THEN 0 - ((2 * (0 - n) + d) \div (2 * d)) ELSE (2 * n + d) \div (2 * d)
Column(vs, j) == [i \in 1..Len(vs) |-> vs[i][2][j]]
RECURSIVE Mean(_)
Mean(vs) ==
  IF vs = <<>> THEN <<"nan", 0>>
  ELSE IF vs[1][1] \in {"i", "f"} /\ ~Homogeneous(vs) THEN Err("MismatchingTypes", 0)
  ELSE CASE vs[1][1] = "i" -> <<"i", Round(Sum(vs), Len(vs))>>
         [] vs[1][1] = "f" -> <<"F", Round(Sum(vs) * 5040, Len(vs))>>
         [] vs[1][1] = "a" ->
              LET off == {i \in 1..Len(vs) : vs[i][1] # "a" \/ Len(vs[i][2]) # Len(vs[1][2])} IN
              IF off # {} THEN Err(IF vs[Min(off)][1] # "a" THEN "MismatchingTypes" ELSE "DifferentSizeArrays", 0)
              ELSE LET ms == [j \in 1..Len(vs[1][2]) |-> Mean(Column(vs, j))]
                       bad == {j \in DOMAIN ms : IsErr(ms[j])}
                   IN  IF bad # {} THEN ms[Min(bad)] ELSE <<"a", ms>>
         [] OTHER -> Err("UnsupportedReducer", 0)
Sorted(vs) == SortSeq(vs, LAMBDA x, y : x[2] < y[2])
Median(vs) ==
  IF vs = <<>> THEN Err("EmptyArray", 0)
  ELSE IF vs[1][1] \notin {"i", "f"} THEN Err("UnsupportedReducer", 0)
  ELSE LET s == Sorted(vs)  k == Len(s) \div 2
       IN  IF Len(s) % 2 = 1 THEN s[k + 1] ELSE Mean(<<s[k], s[k + 1]>>)
(* each on 32 bytes, the short ones preceded by zeros and the long ones cut *)
Pad(b) == IF Len(b) >= 32 THEN SubSeq(b, 1, 32) ELSE [i \in 1..(32 - Len(b)) |-> 0] \o b
(* strings are taken for the bytes they are the hexadecimal digits of *)
Hex(c) == CASE c \in 48..57 -> c - 48 [] c \in 97..102 -> c - 87 [] c \in 65..70 -> c - 55 [] OTHER -> 0 - 1
IsHex(s) == Len(s) % 2 = 0 /\ \A i \in 1..Len(s) : Hex(s[i]) >= 0
UnHex(s) == [i \in 1..(Len(s) \div 2) |-> 16 * Hex(s[2 * i - 1]) + Hex(s[2 * i])]
RECURSIVE Hashed(_)
Hashed(vs) ==
  IF vs = <<>> \/ vs[1][1] \notin {"y", "s"} THEN Err("UnsupportedReducer", 0)
  ELSE IF vs[1][1] = "s" THEN (IF \A i \in 1..Len(vs) : IsHex(vs[i][2]) THEN Hashed([i \in 1..Len(vs) |-> <<"y", UnHex(vs[i][2])>>]) ELSE Err("UnsupportedReducer", 0))
  ELSE <<"h", FoldLeft(LAMBDA a, v : a \o Pad(v[2]), <<>>, vs)>>
Kinds == {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11}
Reduce(code, vs) == CASE code = 2 -> Mode(vs) [] code = 3 -> Mean(vs) [] code = 5 -> Median(vs) [] code = 11 -> Hashed(vs)
(* Of numbers: whether one is within s/4 deviations of the mean *)
Near(vs, i, s) == LET n == Len(vs)  S == Sum(vs)  Q == FoldLeft(LAMBDA a, v : a + v[2] * v[2], 0, vs)
                  IN  IF n * Q = S * S THEN TRUE   \* they are all the same
                      ELSE s >= 0 /\ 16 * (n * vs[i][2] - S) * (n * vs[i][2] - S) <= s * s * (n * Q - S * S)
(* Whether that is told apart from its opposite in floating point *)
Sharp(vs, s) == LET n == Len(vs)  S == Sum(vs)  Q == FoldLeft(LAMBDA a, v : a + v[2] * v[2], 0, vs)
                IN  \/ n \in {1, 2, 4, 8, 16}
                    \/ n * Q # S * S /\ \A i \in 1..n : 16 * (n * vs[i][2] - S) * (n * vs[i][2] - S) # s * s * (n * Q - S * S)
(* A filter keeps some of the values, or fails *)
Kept(f, vs) ==
  IF ~Homogeneous(vs) THEN [err |-> Err("UnsupportedOpNonHomogeneous", 0)]
  ELSE IF f.op = 8 THEN (LET m == Mode(vs) IN IF IsErr(m) THEN [err |-> m] ELSE [keep |-> [i \in 1..Len(vs) |-> vs[i] = m]])
  ELSE IF f.arg \notin {"number"} THEN [err |-> Err("WrongArguments", 0)]
  ELSE IF vs = <<>> THEN [keep |-> <<>>]
  ELSE IF vs[1][1] \in {"i", "f"} THEN [keep |-> [i \in 1..Len(vs) |-> Near(vs, i, f.s)]]
  ELSE IF vs[1][1] # "a" THEN [err |-> Err("UnsupportedFilter", 0)]
  ELSE LET w == Len(vs[1][2])
           row == vs[1][2]
       IN  IF w = 0 \/ ~Homogeneous(row) \/ row[1][1] = "a" THEN [err |-> Err("UnsupportedFilter", 0)]
           ELSE IF \E i \in 1..Len(vs) : Len(vs[i][2]) # w THEN [err |-> Err("DifferentSizeArrays", 0)]
           ELSE IF \E j \in 1..w : ~Homogeneous(Column(vs, j)) THEN [err |-> Err("UnsupportedOpNonHomogeneous", 0)]
           ELSE IF row[1][1] \notin {"i", "f"} THEN [err |-> Err("UnsupportedFilter", 0)]
           ELSE [keep |-> [i \in 1..Len(vs) |-> \A j \in 1..w : Near(Column(vs, j), i, f.s)]]
SharpAll(f, vs) ==
  IF f.op # 5 \/ f.arg # "number" \/ vs = <<>> \/ ~Homogeneous(vs) THEN TRUE
  ELSE CASE vs[1][1] \in {"i", "f"} -> Sharp(vs, f.s)
         [] vs[1][1] = "a" -> \/ \E i \in 1..Len(vs) : Len(vs[i][2]) # Len(vs[1][2])
                              \/ \A j \in 1..Len(vs[1][2]) : (Homogeneous(Column(vs, j)) /\ vs[1][2][j][1] \in {"i", "f"}) => Sharp(Column(vs, j), f.s)
         [] OTHER -> TRUE
(* those marked so far, and of the others those just marked *)
Spread(old, new) == FoldLeft(LAMBDA a, x : IF x THEN [out |-> Append(a.out, TRUE), at |-> a.at] ELSE [out |-> Append(a.out, new[a.at]), at |-> a.at + 1], [out |-> <<>>, at |-> 1], old).out
(* What the filters and the reducer of a request can be *)
Script(t, w) ==
  LET bad(f) == CASE f.op \notin {5, 8} /\ f.op \in (0..8) \cup (128..136) -> "UnsupportedFilterInAT" [] f.op \notin (0..8) \cup (128..136) -> "UnknownFilter"
                  [] f.arg = "garbage" -> "BufferIsNotValue" [] OTHER -> ""
      fs == [i \in 1..Len(t.filters) |-> bad(t.filters[i])]
      no == {i \in DOMAIN fs : fs[i] # ""}
  IN  IF no # {} THEN fs[Min(no)]
      ELSE IF t.reducer \notin Kinds THEN "UnknownReducer"
      ELSE IF t.reducer \in {2, 3} \/ (t.reducer = 5 /\ w.w17) \/ (t.reducer = 11 /\ w.w19) THEN "" ELSE "UnsupportedReducerInAT"
Pass(t, vs, liars) ==
  LET step(a, f) ==
        IF a.stop THEN a
        ELSE LET k == Kept(f, a.vs) IN
             IF "err" \in DOMAIN k THEN [a EXCEPT !.stop = TRUE, !.vs = <<k.err>>]
             ELSE LET left == SelectSeq([i \in 1..Len(a.vs) |-> i], LAMBDA i : k.keep[i])
                      now == [i \in 1..Len(a.vs) |-> ~k.keep[i]]
                  IN  [stop |-> FALSE, sharp |-> a.sharp /\ SharpAll(f, a.vs), liars |-> IF now = <<>> THEN a.liars ELSE Spread(a.liars, now),
                       vs |-> [j \in 1..Len(left) |-> a.vs[left[j]]]]
      end == FoldLeft(step, [stop |-> FALSE, sharp |-> TRUE, liars |-> liars, vs |-> vs], t.filters)
      out == IF end.stop THEN end.vs[1] ELSE IF ~Homogeneous(end.vs) THEN Err("UnsupportedOpNonHomogeneous", 0) ELSE Reduce(t.reducer, end.vs)
  IN  [v |-> Intercept(out), liars |-> end.liars, sharp |-> end.sharp]
All(n, x) == [i \in 1..n |-> x]
Failed(e, n) == [v |-> Intercept(e), liars |-> All(n, TRUE), errors |-> All(n, TRUE), sharp |-> TRUE]
Spared(e, n) == [v |-> Intercept(e), liars |-> All(n, FALSE), errors |-> All(n, TRUE), sharp |-> TRUE]
Short(n, d, min) == Err("InsufficientConsensus", <<Round(n * 1000000, d), min>>)
(* Of the reveals of those that committed; min is of 100 *)
Agreed(reveals, min, commits, many, t, w) ==
  LET n == Len(reveals)
      rs == [i \in 1..n |-> IF reveals[i][1] = "x" \/ (IsErr(reveals[i]) /\ reveals[i][2] = "EncodeReveal" /\ ~w.w26) THEN Err("MalformedReveal", 0) ELSE reveals[i]]
      fail(e) == IF w.w9 THEN Failed(e, n) ELSE Spared(e, n)
      of(k) == {i \in 1..n : Code(rs[i]) = k}
      top == Max({Cardinality(of(k)) : k \in 0..7})
      ks == {k \in 0..7 : Cardinality(of(k)) = top}
      kind == CHOOSE k \in ks : TRUE
      base == IF w.w9 THEN commits ELSE n
      errs == SelectSeq(rs, IsErr)
      mine == SelectSeq(rs, LAMBDA v : Code(v) = kind)
      first == [i \in 1..n |-> Code(rs[i]) # kind]
      isErr == [i \in 1..n |-> IsErr(rs[i])]
      script == Script(t, w)
      pass == Pass(t, mine, first)
      good == Cardinality({i \in 1..n : ~pass.liars[i]})
      before ==
        IF many THEN fail(Err("TooManyWitnesses", 0))
        ELSE IF commits = 0 THEN fail(Err("InsufficientCommits", 0))
        ELSE IF n = 0 THEN fail(Err("NoReveals", 0))
        ELSE IF 100 * top < min * commits THEN fail(Short(top, commits, min))
        ELSE IF Cardinality(ks) > 1 THEN fail(Err("ModeTie", top))
        ELSE IF kind = 6 THEN
             (IF 100 * Top(errs) < min * base THEN fail(Short(Top(errs), base, min))
              ELSE IF Cardinality(Modes(errs)) > 1 THEN fail(Err("ModeTie", Top(errs)))
              ELSE Spared(Mode(errs), n))
        ELSE IF script # "" THEN (IF w.w9 THEN Failed(Err("TallyExecution", 0), n)
                                  ELSE [v |-> Err("TallyExecution", 0), liars |-> All(n, FALSE), errors |-> <<>>, sharp |-> TRUE])
        ELSE [v |-> pass.v, liars |-> pass.liars, errors |-> isErr, sharp |-> pass.sharp]
      truths == Cardinality({i \in DOMAIN before.liars : ~before.liars[i]})
      after == IF w.w9 /\ ~IsErr(before.v) /\ ~(100 * truths > min * commits) THEN [Failed(Short(truths, commits, min), n) EXCEPT !.sharp = before.sharp] ELSE before
  IN  [after EXCEPT !.v = IF w.w18 /\ IsErr(@) /\ @[2] = "UnhandledIntercept" THEN Err("UnhandledIntercept", 0) ELSE Out(@)]
tallyVars == <<res>>
TallyInit == res = [v |-> <<>>, liars |-> <<>>, errors |-> <<>>, sharp |-> TRUE]
Tallied(q) == res' = Agreed(q.reveals, q.min, q.commits, q.many, q.t, q.w)
=============================================================================
