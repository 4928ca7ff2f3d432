------------------------------- MODULE Radon -------------------------------
(* What a script makes of a value.  Values are as for tallies, but integers are <<"i", negative, digits from the units up>>, of 128 bits;
   maps are sequences of <<key, value>> in the order of their keys; texts are sequences of code points.
   <<"json", tree>> and <<"xml", tree>> are texts that are documents, known by what is in them.
   <<"?">> is a value (or an error) this specification has no word for: floats that are not in sixteenths, mostly. *)
EXTENDS Tally
P == <<"?">>
E(n) == <<"e", n, 0>>
W == E("WrongArguments")
U == E("UnsupportedOperator")
D == E("Decode")
(* ---- whole numbers: digits from the units up, no zeros on top ---- *)
RECURSIVE DigitsOf(_)
DigitsOf(n) == IF n = 0 THEN <<>> ELSE <<n % 10>> \o DigitsOf(n \div 10)
RECURSIVE Lean(_)
Lean(d) == IF d # <<>> /\ d[Len(d)] = 0 THEN Lean(SubSeq(d, 1, Len(d) - 1)) ELSE d
Dig(d, i) == IF i <= Len(d) THEN d[i] ELSE 0
Cmp(a, b) ==
  IF Len(a) # Len(b) THEN (IF Len(a) < Len(b) THEN 0 - 1 ELSE 1)
  ELSE LET ds == {i \in 1..Len(a) : a[i] # b[i]} IN IF ds = {} THEN 0 ELSE IF a[Max(ds)] < b[Max(ds)] THEN 0 - 1 ELSE 1
Upto(n) == [i \in 1..n |-> i]
Carried(cols) == Lean(FoldLeft(LAMBDA a, x : LET t == x + a.c IN [o |-> Append(a.o, t % 10), c |-> t \div 10], [o |-> <<>>, c |-> 0], cols \o <<0, 0, 0, 0>>).o)
Plus(a, b) == Carried([i \in 1..(Len(a) + Len(b)) |-> Dig(a, i) + Dig(b, i)])
(* of the larger the smaller *)
Minus(a, b) == Lean(FoldLeft(LAMBDA s, i : LET t == a[i] - Dig(b, i) - s.c IN [o |-> Append(s.o, (t + 10) % 10), c |-> IF t < 0 THEN 1 ELSE 0], [o |-> <<>>, c |-> 0], Upto(Len(a))).o)
Times(a, b) == IF a = <<>> \/ b = <<>> THEN <<>>
               ELSE Carried([k \in 1..(Len(a) + Len(b) - 1) |-> FoldLeft(LAMBDA s, i : IF k + 1 - i \in 1..Len(b) THEN s + a[i] * b[k + 1 - i] ELSE s, 0, Upto(Len(a)))])
RECURSIVE Less9(_, _)
Less9(r, b) == IF Cmp(r, b) >= 0 THEN Less9(Minus(r, b), b) ELSE r
Rest(a, b) == FoldLeft(LAMBDA r, x : Less9(Lean(<<x>> \o r), b), <<>>, Reverse(a))
(* by a small number: quotient and rest *)
Halved(a, m) == LET r == FoldLeft(LAMBDA s, x : LET t == s.r * 10 + x IN [q |-> <<t \div m>> \o s.q, r |-> t % m], [q |-> <<>>, r |-> 0], Reverse(a)) IN [q |-> Lean(r.q), r |-> r.r]
Scaled(a, m, c) == LET cols == [i \in 1..Len(a) |-> a[i] * m] IN Carried(IF a = <<>> THEN <<c>> ELSE [cols EXCEPT ![1] = @ + c])
MaxD == Reverse(<<1,7,0,1,4,1,1,8,3,4,6,0,4,6,9,2,3,1,7,3,1,6,8,7,3,0,3,7,1,5,8,8,4,1,0,5,7,2,7>>)
MinD == Plus(MaxD, <<1>>)
Fits(neg, d) == Cmp(d, IF neg THEN MinD ELSE MaxD) <= 0
Whole(neg, d) == <<"i", neg /\ d # <<>>, d>>
Made(neg, d) == IF Fits(neg /\ d # <<>>, d) THEN Whole(neg, d) ELSE E("Overflow")
Num(n) == Whole(n < 0, DigitsOf(Abs(n)))
Few(v) == Len(v[3]) <= 9
Native(v) == LET n == FoldLeft(LAMBDA a, x : a * 10 + x, 0, Reverse(v[3])) IN IF v[2] THEN 0 - n ELSE n
Below(v, o) == IF v[2] # o[2] THEN v[2] ELSE IF v[2] THEN Cmp(v[3], o[3]) > 0 ELSE Cmp(v[3], o[3]) < 0
Int32(v) == v[1] = "i" /\ Cmp(v[3], IF v[2] THEN <<8,4,6,3,8,4,7,4,1,2>> ELSE <<7,4,6,3,8,4,7,4,1,2>>) <= 0
U32(v) == v[1] = "i" /\ ~v[2] /\ Cmp(v[3], <<5,9,2,7,6,9,4,9,2,4>>) <= 0
U8(v) == v[1] = "i" /\ ~v[2] /\ Few(v) /\ Native(v) < 256
Power(v, e) ==
  LET n == IF Len(e[3]) <= 3 THEN Native(e) ELSE 1000 + (e[3][1] % 2)
      odd == n % 2 = 1
  IN  IF n = 0 THEN Num(1)
      ELSE IF v[3] \in {<<>>, <<1>>} THEN Whole(v[2] /\ odd, v[3])
      ELSE IF n > 127 THEN E("Overflow")
      ELSE Made(v[2] /\ odd, FoldLeft(LAMBDA a, i : IF Len(a) > 40 THEN a ELSE Times(a, v[3]), <<1>>, Upto(n)))
RECURSIVE Bytes16(_, _)
Bytes16(d, k) == IF k = 0 THEN <<>> ELSE LET h == Halved(d, 256) IN <<h.r>> \o Bytes16(h.q, k - 1)
Twos(v) == IF v[2] THEN [i \in 1..16 |-> 255 - Bytes16(Minus(v[3], <<1>>), 16)[i]] ELSE Bytes16(v[3], 16)
(* of bytes from the units up *)
OfTwos(b) == LET up(x) == FoldLeft(LAMBDA a, y : Scaled(a, 256, y), <<>>, Reverse(x))
             IN  IF b[16] >= 128 THEN Whole(TRUE, Plus(up([i \in 1..16 |-> 255 - b[i]]), <<1>>)) ELSE Whole(FALSE, up(b))
(* ---- texts ---- *)
Ascii(s) == [i \in 1..Len(s) |-> s[i]]
Text(d) == IF d = <<>> THEN <<48>> ELSE [i \in 1..Len(d) |-> 48 + d[Len(d) + 1 - i]]
IntText(v) == (IF v[2] THEN <<45>> ELSE <<>>) \o Text(v[3])
RECURSIVE NoZeros(_)
NoZeros(s) == IF s # <<>> /\ s[Len(s)] = 48 THEN NoZeros(SubSeq(s, 1, Len(s) - 1)) ELSE s
FloatText(n) ==
  LET a == Abs(n)  r == (a % 16) * 625
      frac == NoZeros(<<48 + r \div 1000, 48 + ((r \div 100) % 10), 48 + ((r \div 10) % 10), 48 + (r % 10)>>)
  IN  (IF n < 0 THEN <<45>> ELSE <<>>) \o Text(DigitsOf(a \div 16)) \o (IF frac = <<>> THEN <<>> ELSE <<46>> \o frac)
True == <<116, 114, 117, 101>>
False == <<102, 97, 108, 115, 101>>
IsDigits(s) == \A i \in 1..Len(s) : s[i] \in 48..57
OfDigits(s) == Lean([i \in 1..Len(s) |-> s[Len(s) + 1 - i] - 48])
Signed(s) == s # <<>> /\ s[1] \in {43, 45}
Unsigned(s) == IF Signed(s) THEN Tail(s) ELSE s
ReadInt(s) ==
  LET d == Unsigned(s)  neg == Signed(s) /\ s[1] = 45
  IN  IF d = <<>> \/ ~IsDigits(d) THEN E("ParseInt") ELSE LET m == OfDigits(d) IN IF Fits(neg /\ m # <<>>, m) THEN Whole(neg, m) ELSE E("ParseInt")
Lower1(c) == IF c \in 65..90 \/ c = 201 THEN c + 32 ELSE c
Lower(s) == [i \in 1..Len(s) |-> Lower1(s[i])]
Upper(s) == FoldLeft(LAMBDA a, c : a \o (IF c \in 97..122 \/ c = 233 THEN <<c - 32>> ELSE IF c = 223 THEN <<83, 83>> ELSE <<c>>), <<>>, s)
At(s, c) == {i \in 1..Len(s) : s[i] \in c}
ReadFloat(s) ==
  LET u == Unsigned(s)  neg == Signed(s) /\ s[1] = 45
      e == At(u, {69, 101})
      m == IF e = {} THEN u ELSE SubSeq(u, 1, Min(e) - 1)
      x == IF e = {} THEN <<48>> ELSE Unsigned(SubSeq(u, Min(e) + 1, Len(u)))
      dots == At(m, {46})
      dot == IF dots = {} THEN Len(m) + 1 ELSE Min(dots)
      w == SubSeq(m, 1, dot - 1)
      f == SubSeq(m, dot + 1, Len(m))
      good == IsDigits(w) /\ IsDigits(f) /\ Len(w \o f) > 0 /\ x # <<>> /\ IsDigits(x)
      wd == OfDigits(w)
      fd == NoZeros(f)
      tenk == FoldLeft(LAMBDA a, i : a * 10 + (IF i <= Len(fd) THEN fd[i] - 48 ELSE 0), 0, Upto(4))
      n == 16 * FoldLeft(LAMBDA a, y : a * 10 + y, 0, Reverse(wd)) + (tenk * 16) \div 10000
  IN  IF Lower(u) \in {<<105,110,102>>, <<110,97,110>>, <<105,110,102,105,110,105,116,121>>} THEN P
      ELSE IF ~good THEN E("ParseFloat")
      ELSE IF e # {} \/ Len(wd) > 6 \/ Len(fd) > 4 THEN P
      ELSE IF (tenk * 16) % 10000 # 0 \/ (neg /\ n = 0) THEN P
      ELSE <<"f", IF neg THEN 0 - n ELSE n>>
(* where a text begins to be in another, from some place on *)
Finds(s, p, from) == {i \in from..(Len(s) - Len(p) + 1) : SubSeq(s, i, i + Len(p) - 1) = p}
RECURSIVE Pieces(_, _, _)
Pieces(s, p, from) == LET f == Finds(s, p, from) IN IF f = {} THEN <<SubSeq(s, from, Len(s))>> ELSE <<SubSeq(s, from, Min(f) - 1)>> \o Pieces(s, p, Min(f) + Len(p))
Split(s, p) == IF p = <<>> THEN <<<<>>>> \o [i \in 1..Len(s) |-> <<s[i]>>] \o <<<<>>>> ELSE Pieces(s, p, 1)
Swap(s, p, r) == LET q == Split(s, p) IN FoldLeft(LAMBDA a, x : a \o r \o x, q[1], Tail(q))
Plain(p) == \A i \in 1..Len(p) : p[i] \in 48..57 \/ p[i] \in 65..90 \/ p[i] \in 97..122 \/ p[i] \in {32, 44, 58, 233, 8364}
Trim(s) == IF s # <<>> /\ s[Len(s)] = 10 THEN SubSeq(s, 1, Len(s) - 1) ELSE s
TextArg(v) == v[1] = "s"
Seps(args) == CASE Len(args) = 2 -> <<IF TextArg(args[1]) THEN args[1][2] ELSE <<44>>, IF TextArg(args[2]) THEN args[2][2] ELSE <<46>>>>
                [] Len(args) = 1 -> <<IF TextArg(args[1]) THEN args[1][2] ELSE <<44>>, <<46>>>>
                [] OTHER -> <<<<44>>, <<46>>>>
Numeric(s, args) == Swap(Swap(s, Seps(args)[1], <<>>), Seps(args)[2], <<46>>)
Utf1(c) == IF c < 128 THEN <<c>> ELSE IF c < 2048 THEN <<192 + c \div 64, 128 + (c % 64)>> ELSE IF c < 65536 THEN <<224 + c \div 4096, 128 + ((c \div 64) % 64), 128 + (c % 64)>>
           ELSE <<240 + c \div 262144, 128 + ((c \div 4096) % 64), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
Utf8(s) == FoldLeft(LAMBDA a, c : a \o Utf1(c), <<>>, s)
(* bytes to a text, or not *)
RECURSIVE UnUtf8(_, _)
UnUtf8(b, out) ==
  IF b = <<>> THEN [ok |-> TRUE, s |-> out]
  ELSE LET n == CASE b[1] < 128 -> 1 [] b[1] \in 194..223 -> 2 [] b[1] \in 224..239 -> 3 [] b[1] \in 240..244 -> 4 [] OTHER -> 0
           rest == \A i \in 2..n : b[i] \in 128..191
           c == CASE n = 1 -> b[1] [] n = 2 -> (b[1] - 192) * 64 + b[2] - 128 [] n = 3 -> (b[1] - 224) * 4096 + (b[2] - 128) * 64 + b[3] - 128
                  [] n = 4 -> (b[1] - 240) * 262144 + (b[2] - 128) * 4096 + (b[3] - 128) * 64 + b[4] - 128
           fine == /\ n > 0 /\ n <= Len(b) /\ rest
                   /\ (n = 3 => c >= 2048 /\ c \notin 55296..57343) /\ (n = 4 => c \in 65536..1114111)
       IN  IF fine THEN UnUtf8(SubSeq(b, n + 1, Len(b)), Append(out, c)) ELSE [ok |-> FALSE, s |-> <<>>]
HexText(b) == FoldLeft(LAMBDA a, x : LET h(y) == IF y < 10 THEN 48 + y ELSE 87 + y IN a \o <<h(x \div 16), h(x % 16)>>, <<>>, b)
B64(k) == CASE k < 26 -> 65 + k [] k < 52 -> 71 + k [] k < 62 -> k - 4 [] k = 62 -> 43 [] OTHER -> 47
UnB64(c) == CASE c \in 65..90 -> c - 65 [] c \in 97..122 -> c - 71 [] c \in 48..57 -> c + 4 [] c = 43 -> 62 [] c = 47 -> 63 [] OTHER -> 0 - 1
RECURSIVE Base64(_)
Base64(b) ==
  CASE b = <<>> -> <<>>
    [] Len(b) = 1 -> <<B64(b[1] \div 4), B64((b[1] % 4) * 16), 61, 61>>
    [] Len(b) = 2 -> <<B64(b[1] \div 4), B64((b[1] % 4) * 16 + b[2] \div 16), B64((b[2] % 16) * 4), 61>>
    [] OTHER -> <<B64(b[1] \div 4), B64((b[1] % 4) * 16 + b[2] \div 16), B64((b[2] % 16) * 4 + b[3] \div 64), B64(b[3] % 64)>> \o Base64(SubSeq(b, 4, Len(b)))
(* what the fours stand for, when they are as they would be written *)
UnBase64(s) ==
  LET k == Len(s)
      pads == IF k >= 2 /\ s[k] = 61 /\ s[k - 1] = 61 THEN 2 ELSE IF k >= 1 /\ s[k] = 61 THEN 1 ELSE 0
      v(i) == IF i > k - pads THEN 0 ELSE UnB64(s[i])
      four(j) == <<v(j) * 4 + v(j + 1) \div 16, (v(j + 1) % 16) * 16 + v(j + 2) \div 4, (v(j + 2) % 4) * 64 + v(j + 3)>>
      all == FoldLeft(LAMBDA a, q : a \o four(4 * q - 3), <<>>, Upto(k \div 4))
      out == SubSeq(all, 1, Len(all) - pads)
  IN  IF k % 4 # 0 \/ \E i \in 1..(k - pads) : UnB64(s[i]) < 0 THEN D ELSE IF Base64(out) # s THEN D ELSE <<"y", out>>
(* ---- maps ---- *)
RECURSIVE Before(_, _)
Before(a, b) == IF a = <<>> THEN b # <<>> ELSE IF b = <<>> THEN FALSE ELSE IF a[1] # b[1] THEN a[1] < b[1] ELSE Before(Tail(a), Tail(b))
Has(m, k) == \E i \in 1..Len(m) : m[i][1] = k
Get(m, k) == m[CHOOSE i \in 1..Len(m) : m[i][1] = k][2]
Put(m, k, v) == IF Has(m, k) THEN [i \in 1..Len(m) |-> IF m[i][1] = k THEN <<k, v>> ELSE m[i]]
                ELSE SelectSeq(m, LAMBDA p : Before(p[1], k)) \o <<<<k, v>>>> \o SelectSeq(m, LAMBDA p : Before(k, p[1]))
(* ---- documents ---- *)
(* numbers of a document, in sixteenths if they have a point *)
RECURSIVE FromJson(_)
FromJson(j) ==
  CASE j[1] = "n" -> D [] j[1] = "b" -> j [] j[1] = "s" -> j
    [] j[1] = "i" -> IF Len(j[3]) <= 18 THEN j ELSE P
    [] j[1] = "d" -> IF j[2] > 0 /\ j[2] % 16 = 0 THEN Num(j[2] \div 16) ELSE <<"f", j[2]>>
    [] j[1] = "a" -> <<"a", SelectSeq([i \in 1..Len(j[2]) |-> FromJson(j[2][i])], LAMBDA v : ~IsErr(v))>>
    [] j[1] = "o" -> <<"m", FoldLeft(LAMBDA m, p : LET v == FromJson(p[2]) IN IF IsErr(v) THEN m ELSE Put(m, p[1], v), <<>>, j[2])>>
(* what a path leads to is taken as it is *)
RECURSIVE Picked(_)
Picked(j) ==
  CASE j[1] = "n" -> <<"s", <<>>>> [] j[1] \in {"b", "s"} -> j [] j[1] = "i" -> IF Len(j[3]) <= 18 THEN j ELSE P [] j[1] = "d" -> <<"f", j[2]>>
    [] j[1] = "a" -> <<"a", [i \in 1..Len(j[2]) |-> Picked(j[2][i])]>>
    [] j[1] = "o" -> <<"m", FoldLeft(LAMBDA m, p : Put(m, p[1], Picked(p[2])), <<>>, j[2])>>
Walk(j, path) ==
  FoldLeft(LAMBDA js, step : FoldLeft(LAMBDA a, x : a \o
              (CASE step[1] = "k" -> IF x[1] = "o" /\ Has(x[2], step[2]) THEN <<Get(x[2], step[2])>> ELSE <<>>
                 [] step[1] = "w" -> IF x[1] = "a" THEN x[2] ELSE <<>>
                 [] step[1] = "i" -> IF x[1] = "a" /\ step[2] < Len(x[2]) THEN <<x[2][step[2] + 1]>> ELSE <<>>), <<>>, js), <<j>>, path)
(* elements of a document *)
RECURSIVE Deep(_, _)
Deep(x, depth) == depth > 20 \/ \E i \in 1..Len(x[4]) : x[4][i][1] = "el" /\ Deep(x[4][i], depth + 1)
RECURSIVE Element(_)
Element(x) ==
  LET attrs == FoldLeft(LAMBDA m, p : Put(m, <<64>> \o p[1], <<"s", p[2]>>), <<>>, x[3])
      els == SelectSeq(x[4], LAMBDA c : c[1] = "el")
      texts == SelectSeq(x[4], LAMBDA c : c[1] = "t" /\ c[2] # <<>>)
      said == [i \in 1..Len(texts) |-> <<"s", texts[i][2]>>]
      text == IF Len(said) = 1 THEN said[1] ELSE <<"a", said>>
      base == IF said = <<>> THEN attrs ELSE Put(attrs, <<95, 116, 101, 120, 116>>, text)
  IN  IF els = <<>> /\ attrs = <<>> THEN (IF said = <<>> THEN <<"s", <<>>>> ELSE text)
      ELSE <<"m", FoldLeft(LAMBDA m, c : LET k == c[2]
                                             old == Get(m, k)
                                         IN  Put(m, k, IF ~Has(m, k) THEN Element(c) ELSE IF old[1] = "a" THEN <<"a", Append(old[2], Element(c))>> ELSE <<"a", <<old, Element(c)>>>>),
                  base, els)>>
FromXml(x) == IF Deep(x, 0) THEN E("XmlParseOverflow") ELSE Element(x)
(* ---- one kind of value as another ---- *)
RECURSIVE Murky(_)
Murky(v) == v = P \/ (v[1] = "a" /\ \E i \in 1..Len(v[2]) : Murky(v[2][i])) \/ (v[1] = "m" /\ \E i \in 1..Len(v[2]) : Murky(v[2][i][2]))
AsString(v) == CASE v[1] = "s" -> v [] v[1] = "i" -> <<"s", IntText(v)>> [] v[1] = "f" -> <<"s", FloatText(v[2])>> [] v[1] = "b" -> <<"s", IF v[2] THEN True ELSE False>>
                 [] v[1] \in {"y", "h", "json", "xml", "nan"} -> P [] OTHER -> D
ToFloat(v) == IF Len(v[3]) > 7 THEN P ELSE <<"f", 16 * Native(v)>>
AsFloat(v) == CASE v[1] = "f" -> v [] v[1] = "i" -> ToFloat(v) [] v[1] = "s" -> ReadFloat(v[2]) [] v[1] \in {"json", "xml", "nan"} -> P [] OTHER -> D
AsInt(v) == CASE v[1] = "i" -> v [] v[1] = "s" -> ReadInt(v[2]) [] v[1] \in {"json", "xml"} -> P [] OTHER -> D
As(kind, v) == IF v[1] = kind \/ (kind = "y" /\ v[1] = "h") THEN v ELSE D
OrElse(v, e) == IF IsErr(v) THEN e ELSE v
(* ---- arrays ---- *)
Alike(vs) == vs = <<>> \/ \A i \in 1..Len(vs) : Code(vs[i]) = Code(vs[1])
RECURSIVE Small(_)
Small(v) == CASE v[1] = "i" -> Len(v[3]) <= 3 [] v[1] = "f" -> Abs(v[2]) <= 400 [] v[1] = "a" -> \A i \in 1..Len(v[2]) : Small(v[2][i]) [] v[1] \in {"nan", "json", "xml", "h"} -> FALSE [] OTHER -> TRUE
RECURSIVE Low(_)
Low(v) == CASE v[1] = "i" -> <<"i", Native(v)>> [] v[1] = "a" -> <<"a", [i \in 1..Len(v[2]) |-> Low(v[2][i])]>> [] OTHER -> v
RECURSIVE High(_)
High(v) == CASE v[1] = "i" -> Num(v[2]) [] v[1] = "F" -> IF v[2] % 5040 = 0 THEN <<"f", v[2] \div 5040>> ELSE P
             [] v[1] = "a" -> (LET h == [i \in 1..Len(v[2]) |-> High(v[2][i])] IN IF \E i \in DOMAIN h : h[i] = P THEN P ELSE <<"a", h>>)
             [] v[1] = "e" -> E(v[2]) [] OTHER -> v
Spread2(vs) ==
  IF vs = <<>> THEN <<"nan", 0>>
  ELSE IF vs[1][1] \notin {"i", "f"} THEN (IF vs[1][1] = "a" THEN P ELSE E("UnsupportedReducer"))
  ELSE IF \E i \in 1..Len(vs) : ~Small(vs[i]) THEN P
  ELSE LET ns == [i \in 1..Len(vs) |-> Low(vs[i])[2] * (IF vs[1][1] = "i" THEN 16 ELSE 1)]
       IN  IF Len(ns) = 1 THEN <<"f", 0>> ELSE IF Len(ns) = 2 /\ (ns[1] - ns[2]) % 2 = 0 THEN <<"f", Abs(ns[1] - ns[2]) \div 2>> ELSE P
Reduced(vs, code, w) ==
  IF ~(Alike(vs)) THEN E("UnsupportedOpNonHomogeneous")
  ELSE CASE code = 2 -> (IF \E i \in 1..Len(vs) : vs[i][1] \in {"json", "xml", "nan", "h"} THEN P ELSE LET m == Mode(vs) IN IF IsErr(m) THEN E(m[2]) ELSE m)
         [] code \in {3, 5} -> IF \E i \in 1..Len(vs) : ~Small(vs[i]) THEN P ELSE High(Reduce(code, [i \in 1..Len(vs) |-> Low(vs[i])]))
         [] code = 7 -> Spread2(vs)
         [] code = 11 -> (IF \E i \in 1..Len(vs) : vs[i][1] \in {"json", "xml", "h"} THEN P ELSE High(Hashed(vs)))
         [] OTHER -> E("UnsupportedReducer")
Filtered(vs, args) ==
  LET code == args[1]
      ok == ~code[2] /\ Few(code) /\ Native(code) \in (0..8) \cup (128..136)
      n == Native(code)
      extra == Tail(args)
      x == extra[1]
      f == [op |-> n, arg |-> IF extra = <<>> THEN "none" ELSE IF x[1] = "f" \/ (x[1] = "i" /\ Len(x[3]) <= 2) THEN "number" ELSE "text",
            s |-> IF extra = <<>> THEN 0 ELSE IF x[1] = "i" THEN 4 * Native(x) ELSE IF x[1] = "f" THEN x[2] \div 4 ELSE 0]
      k == Kept(f, [i \in 1..Len(vs) |-> Low(vs[i])])
  IN  IF ~ok THEN E("UnknownFilter")
      ELSE IF ~Alike(vs) THEN E("UnsupportedOpNonHomogeneous")
      ELSE IF n \notin {5, 8} THEN E("UnsupportedFilter")
      ELSE IF \E i \in 1..Len(vs) : ~Small(vs[i]) THEN P
      ELSE IF n = 5 /\ extra # <<>> /\ ((x[1] = "i" /\ Len(x[3]) > 2) \/ (x[1] = "f" /\ ((x[2] % 4) # 0 \/ Abs(x[2]) > 200))) THEN P
      ELSE IF n = 5 /\ Len(vs) > 5 THEN P
      ELSE IF "err" \in DOMAIN k THEN E(k.err[2])
      ELSE IF ~SharpAll(f, [i \in 1..Len(vs) |-> Low(vs[i])]) THEN P
      ELSE <<"a", [j \in 1..Len(SelectSeq(Upto(Len(vs)), LAMBDA i : k.keep[i])) |-> vs[SelectSeq(Upto(Len(vs)), LAMBDA i : k.keep[i])[j]]]>>
(* ---- calls: <<"c", code>> by itself, <<"k", code, arguments>>, or something that is not a call ---- *)
Codes == {0, 255} \cup (16..17) \cup (19..27) \cup {29, 32, 34, 48, 49, 50, 52, 60} \cup (64..68) \cup (70..74) \cup (80..89) \cup {91, 93} \cup (97..105) \cup (112..125)
Unpacked(c) ==
  CASE c[1] = "c" -> IF c[2] \in Codes THEN "" ELSE "UnknownOperator"
    [] c[1] = "k" -> IF c[2] \in Codes THEN "" ELSE "NotIntegerOperator"
    [] c[1] = "none" -> "NoOperatorInCompoundCall" [] c[1] = "neg" -> "NotNaturalOperator" [] c[1] = "text" -> "NotIntegerOperator"
Unpack(cs) == LET bad == {i \in 1..Len(cs) : Unpacked(cs[i]) # ""} IN IF bad = {} THEN "" ELSE Unpacked(cs[Min(bad)])
Cut(len, args) ==
  LET s == args[1]
      small(v, o) == IF Few(v) THEN Native(v) ELSE IF v[2] THEN 0 - 100000 ELSE 100000
      from == LET a == small(s, 0) IN IF a < 0 THEN a + len ELSE a
      to == IF Len(args) < 2 THEN len ELSE IF ~Int32(args[2]) THEN len ELSE LET b == small(args[2], 0) IN IF b < 0 THEN b + len ELSE b
      in(x) == IF x < 0 THEN 0 ELSE IF x > len THEN len ELSE x
  IN  <<in(from), in(to)>>
Oops(i) == <<"e", "ArrayIndexOutOfBounds", i>>
Entry(v, args) ==
  IF v[1] = "a" THEN (IF Len(args) # 1 \/ ~Int32(args[1]) THEN W
                      ELSE IF args[1][2] \/ ~Few(args[1]) \/ Native(args[1]) >= Len(v[2]) THEN Oops(args[1]) ELSE v[2][Native(args[1]) + 1])
  ELSE IF args = <<>> \/ ~TextArg(args[1]) THEN W ELSE IF Has(v[2], args[1][2]) THEN Get(v[2], args[1][2]) ELSE <<"e", "MapKeyNotFound", args[1][2]>>
(* the number somewhere in a map or an array *)
Number(v, args, w, int) ==
  LET x == Entry(v, args)
      y == IF args = <<>> THEN W ELSE Entry(v, <<args[1]>>)
      s == AsString(y)
      t == Numeric(s[2], Tail(args))
  IN  IF ~w.w24 THEN (IF IsErr(x) THEN x ELSE IF Murky(x) \/ x[1] \in {"h"} THEN P ELSE IF int THEN OrElse(AsInt(x), E("ParseInt")) ELSE OrElse(AsFloat(x), E("ParseFloat")))
      ELSE IF IsErr(y) THEN y ELSE IF s = P \/ IsErr(s) THEN s ELSE IF int THEN ReadInt(t) ELSE ReadFloat(t)
Typed(v, kind, args) == LET x == Entry(v, args) IN IF IsErr(x) THEN x ELSE IF kind = "s" THEN AsString(x) ELSE IF x[1] \in {"json", "xml"} THEN P ELSE As(kind, x)
Match(s, args) ==
  IF args = <<>> THEN W ELSE IF args[1][1] # "m" THEN D
  ELSE IF Len(args) < 2 THEN W
  ELSE LET d == args[2]  v == Get(args[1][2], s)
       IN  IF ~Has(args[1][2], s) THEN d
           ELSE CASE d[1] = "s" -> IF v[1] = "s" THEN v ELSE IF v[1] = "y" THEN P ELSE D
                  [] d[1] = "f" -> OrElse(AsFloat(v), D) [] d[1] = "i" -> OrElse(AsInt(v), D) [] OTHER -> As(d[1], v)
OnString(s, code, bare, args, w) ==
  CASE code = 114 -> IF w.w24 THEN ReadFloat(Numeric(Trim(s), args)) ELSE ReadFloat(Trim(s))
    [] code = 115 -> IF w.w24 THEN ReadInt(Numeric(Trim(s), args)) ELSE ReadInt(Trim(s))
    [] code = 112 /\ bare -> IF Trim(s) = True THEN <<"b", TRUE>> ELSE IF Trim(s) = False THEN <<"b", FALSE>> ELSE E("ParseBool")
    [] code = 113 -> LET x == IF Len(s) >= 2 /\ SubSeq(s, 1, 2) = <<48, 120>> THEN SubSeq(s, 3, Len(s)) ELSE s
                         y == IF Len(Utf8(x)) % 2 = 1 THEN <<48>> \o x ELSE x
                         n == IF args = <<>> THEN 0 ELSE IF U8(args[1]) THEN Native(args[1]) ELSE 1
                     IN  CASE n = 0 -> IF IsHex(y) THEN <<"y", UnHex(y)>> ELSE D [] n = 16 -> P [] n = 17 -> UnBase64(s) [] n = 128 -> <<"y", Utf8(s)>> [] OTHER -> W
    [] code = 116 /\ bare -> Num(Len(Utf8(s)))
    [] code = 117 /\ ~bare -> Match(s, args)
    [] code = 121 /\ bare -> <<"s", Lower(s)>>
    [] code = 122 /\ bare -> <<"s", Upper(s)>>
    [] code = 123 /\ w.new -> IF Len(args) < 2 \/ ~TextArg(args[1]) \/ ~TextArg(args[2]) THEN W ELSE IF args[1][2] = <<91>> THEN W
                              ELSE IF ~Plain(args[1][2]) \/ ~Plain(args[2][2]) THEN P
                              ELSE <<"s", IF args[1][2] = <<>> THEN FoldLeft(LAMBDA a, c : a \o <<c>> \o args[2][2], args[2][2], s) ELSE Swap(s, args[1][2], args[2][2])>>
    [] code = 125 /\ w.new -> IF args # <<>> /\ ~TextArg(args[1]) THEN W ELSE
                              LET p == IF args = <<>> THEN <<>> ELSE args[1][2] IN IF p = <<91>> THEN W ELSE IF ~Plain(p) THEN P
                              ELSE <<"a", [i \in 1..Len(Split(s, p)) |-> <<"s", Split(s, p)[i]>>]>>
    [] code = 124 /\ w.new /\ ~bare -> IF args = <<>> \/ ~Int32(args[1]) THEN W ELSE
                              LET b == Utf8(s)  c == Cut(Len(b), args)  x == UnUtf8(SubSeq(b, c[1] + 1, c[2]), <<>>)
                                  at(k) == k = Len(b) \/ b[k + 1] \notin 128..191
                              IN  IF c[1] >= c[2] THEN <<"s", <<>>>> ELSE IF at(c[1]) /\ at(c[2]) THEN <<"s", x.s>> ELSE W
    [] OTHER -> IF code \in {118, 119} \/ (code = 120 /\ bare) THEN P ELSE U
Json(j, code, bare, args) ==
  LET want == IF code = 118 THEN "a" ELSE "m"
      path(p) == [i \in 1..Len(Walk(j, p)) |-> Picked(Walk(j, p)[i])]
      whole == FromJson(j)
      got == Walk(j, args[1][2])
      first == FromJson(got[1])
      each == [i \in 1..Len(args[1][2]) |-> path(args[1][2][i][2])]
  IN  IF args = <<>> THEN (IF IsErr(whole) THEN whole ELSE IF Murky(whole) THEN P ELSE As(want, whole))
      ELSE CASE args[1][1] = "path" /\ code = 118 -> (IF Murky(<<"a", path(args[1][2])>>) THEN P ELSE <<"a", path(args[1][2])>>)
             [] args[1][1] = "path" /\ code = 119 -> (IF got = <<>> THEN E("JsonPathNotFound") ELSE IF IsErr(first) THEN first ELSE IF Murky(first) THEN P ELSE As("m", first))
             [] args[1][1] = "paths" /\ code = 118 -> (LET all == <<"a", FoldLeft(LAMBDA a, x : a \o (IF Len(x) > 1 THEN <<<<"a", x>>>> ELSE x), <<>>, each)>> IN IF Murky(all) THEN P ELSE all)
             [] args[1][1] = "a" /\ code = 118 -> (IF args[1][2] = <<>> THEN <<"a", <<>>>> ELSE IF TextArg(args[1][2][1]) THEN P ELSE W)
             [] OTHER -> IF TextArg(args[1]) THEN P ELSE W
OnBytes(v, code, bare, args, w) ==
  LET b == v[2]
      n == IF args = <<>> THEN 0 ELSE IF U8(args[1]) THEN Native(args[1]) ELSE 0 - 1
  IN  CASE code = 48 -> IF ~w.new THEN (IF v[1] = "h" THEN P ELSE <<"s", HexText(b)>>)
                        ELSE CASE n = 0 -> (IF v[1] = "h" THEN P ELSE <<"s", HexText(b)>>) [] n = 16 -> P
                               [] n = 17 -> (IF v[1] = "h" THEN P ELSE <<"s", Base64(b)>>)
                               [] n = 128 -> (IF v[1] = "h" THEN P ELSE <<"s", UnUtf8(b, <<>>).s>>) [] OTHER -> W
        [] code = 49 /\ ~bare -> IF args = <<>> THEN W ELSE IF n \notin (0..17) \cup {255} THEN W ELSE IF n # 10 THEN E("UnsupportedHashFunction") ELSE IF v[1] = "h" THEN P ELSE <<"h", b>>
        [] code = 50 /\ w.new -> IF n < 0 THEN W ELSE IF v[1] = "h" THEN E("ParseInt") ELSE IF b = <<>> THEN E("EmptyArray") ELSE IF Len(b) > 16 THEN E("ParseInt")
                                 ELSE LET p == [i \in 1..(16 - Len(b)) |-> 0] \o b IN OfTwos(IF n = 1 THEN p ELSE Reverse(p))
        [] code = 52 /\ bare /\ w.new -> IF v[1] = "h" THEN Num(32) ELSE Num(Len(b))
        [] code = 60 /\ ~bare /\ w.new -> IF args = <<>> \/ ~Int32(args[1]) THEN W ELSE IF v[1] = "h" THEN P ELSE LET c == Cut(Len(b), args) IN <<"y", IF c[1] >= c[2] THEN <<>> ELSE SubSeq(b, c[1] + 1, c[2])>>
        [] OTHER -> U
OnInt(v, code, bare, args, w) ==
  LET need == IF bare THEN U ELSE IF args = <<>> \/ args[1][1] # "i" THEN W ELSE <<>>
      a == args[1]
  IN  CASE code = 64 -> IF bare THEN Made(FALSE, v[3]) ELSE U
        [] code = 67 -> IF need # <<>> THEN need ELSE <<"b", Below(a, v)>>
        [] code = 68 -> IF need # <<>> THEN need ELSE <<"b", Below(v, a)>>
        [] code = 70 -> IF need # <<>> THEN need ELSE IF a[3] = <<>> \/ (v[2] /\ v[3] = MinD /\ a[2] /\ a[3] = <<1>>) THEN E("Overflow") ELSE Whole(v[2], Rest(v[3], a[3]))
        [] code = 71 -> IF need # <<>> THEN need ELSE Made(v[2] # a[2], Times(v[3], a[3]))
        [] code = 72 -> IF bare THEN Made(~v[2], v[3]) ELSE U
        [] code = 73 -> IF need # <<>> THEN need ELSE IF ~U32(a) THEN W ELSE Power(v, a)
        [] code = 74 /\ w.new -> LET n == IF args = <<>> THEN 0 ELSE IF U8(args[1]) THEN Native(args[1]) ELSE 0 - 1
                                 IN  IF n < 0 THEN W ELSE <<"y", IF n = 1 THEN Twos(v) ELSE Reverse(Twos(v))>>
        [] code = 65 /\ bare -> ToFloat(v)
        [] code = 66 /\ bare -> <<"s", IntText(v)>>
        [] OTHER -> U
OnFloat(v, code, bare, args) ==
  LET n == v[2]
      need == IF bare THEN U ELSE IF args = <<>> \/ args[1][1] \notin {"f", "i"} THEN W ELSE IF args[1][1] = "i" THEN P ELSE <<>>
      a == args[1][2]
      mod == IF n < 0 THEN 0 - ((0 - n) % Abs(a)) ELSE n % Abs(a)
      whole(x) == IF bare THEN Num(x) ELSE U
  IN  CASE code = 80 -> IF bare THEN <<"f", Abs(n)>> ELSE U
        [] code = 81 -> IF bare THEN <<"s", FloatText(n)>> ELSE U
        [] code = 82 -> whole(0 - ((0 - n) \div 16))
        [] code = 83 -> IF need # <<>> THEN need ELSE <<"b", n > a>>
        [] code = 84 -> whole(n \div 16)
        [] code = 85 -> IF need # <<>> THEN need ELSE <<"b", n < a>>
        [] code = 86 -> IF need # <<>> THEN need ELSE IF a = 0 \/ (n < 0 /\ mod = 0) THEN P ELSE <<"f", mod>>
        [] code = 87 -> IF need # <<>> THEN need ELSE IF Abs(n) > 40000 \/ Abs(a) > 40000 \/ (n * a) % 16 # 0 \/ n * a = 0 THEN P ELSE <<"f", (n * a) \div 16>>
        [] code = 88 -> IF ~bare THEN U ELSE IF n = 0 THEN P ELSE <<"f", 0 - n>>
        [] code = 89 -> IF need # <<>> THEN need ELSE IF a = 0 THEN <<"f", 16>> ELSE IF a = 16 THEN v
                        ELSE IF a = 32 /\ Abs(n) < 30000 /\ (n * n) % 16 = 0 THEN <<"f", (n * n) \div 16>> ELSE P
        [] code = 91 -> whole(Round(n, 16))
        [] code = 93 -> whole(IF n < 0 THEN 0 - ((0 - n) \div 16) ELSE n \div 16)
        [] OTHER -> U
RECURSIVE Run(_, _, _)
Sub(e) == <<"e", "Subscript", e>>
(* what a script makes of each of some; the first trouble if there is any, and murk before it spreads *)
Each(vs, script, w) ==
  FoldLeft(LAMBDA a, v : IF a.err # <<>> THEN a ELSE LET r == Run(v, script, w) IN IF IsErr(r) \/ r = P THEN [a EXCEPT !.err = r] ELSE [a EXCEPT !.out = Append(@, r)], [err |-> <<>>, out |-> <<>>], vs)
OnArray(v, code, bare, args, w) ==
  LET vs == v[2]
      script == args[1][2]
      is == args # <<>> /\ args[1][1] = "p"
      each == Each(vs, script, w)
      (* an array that is no script is refused for its first that is no call *)
      mapped == IF args[1][1] = "a" THEN (IF args[1][2] = <<>> THEN v ELSE P) ELSE IF ~is THEN Sub("BadSubscriptFormat") ELSE IF Unpack(script) # "" THEN Sub(Unpack(script)) ELSE IF each.err # <<>> THEN each.err ELSE <<"a", each.out>>
  IN  CASE code = 16 -> IF bare THEN Num(Len(vs)) ELSE U
        [] bare -> U
        [] code = 19 -> Typed(v, "a", args) [] code = 20 -> Typed(v, "b", args) [] code = 21 -> Typed(v, "y", args) [] code = 24 -> Typed(v, "m", args) [] code = 25 -> Typed(v, "s", args)
        [] code = 22 -> Number(v, args, w, FALSE) [] code = 23 -> Number(v, args, w, TRUE)
        [] code = 17 -> IF args = <<>> THEN W
                        ELSE IF args[1][1] = "i" THEN Filtered(vs, args)
                        ELSE IF args[1][1] = "a" THEN P
                        ELSE IF ~is THEN W
                        ELSE IF Unpack(script) # "" THEN Sub(Unpack(script))
                        ELSE LET r == FoldLeft(LAMBDA a, x : IF a.err # <<>> THEN a ELSE LET y == Run(x, script, w) IN
                                         IF IsErr(y) \/ y = P THEN [a EXCEPT !.err = y] ELSE IF y[1] # "b" THEN [a EXCEPT !.err = E("ArrayFilterWrongSubscript")]
                                         ELSE IF y[2] THEN [a EXCEPT !.out = Append(@, x)] ELSE a, [err |-> <<>>, out |-> <<>>], vs)
                             IN  IF r.err # <<>> THEN r.err ELSE <<"a", r.out>>
        [] code = 26 -> IF Len(args) # 1 THEN W ELSE mapped
        [] code = 27 -> IF Len(args) # 1 \/ ~U8(args[1]) THEN W ELSE IF Native(args[1]) \notin Kinds THEN W ELSE Reduced(vs, Native(args[1]), w)
        [] code = 29 -> IF Len(args) > 1 THEN W
                        ELSE LET m == IF args = <<>> THEN v ELSE mapped
                                 order == SortSeq(Upto(Len(vs)), LAMBDA i, j : LET x == m[2][i]  y == m[2][j]  lt(p, q) == IF p[1] = "i" THEN Below(p, q) ELSE Before(p[2], q[2])
                                                                              IN  IF lt(x, y) THEN TRUE ELSE IF lt(y, x) THEN FALSE ELSE i < j)
                             IN  IF m = P \/ IsErr(m) THEN m ELSE IF vs = <<>> THEN v ELSE IF ~Alike(vs) THEN E("UnsupportedOpNonHomogeneous")
                                 ELSE IF m[2][1][1] \notin {"i", "s"} \/ ~Alike(m[2]) THEN (IF \E i \in 1..Len(m[2]) : m[2][i][1] \in {"json", "xml"} THEN P ELSE E("UnsupportedSortOp"))
                                 ELSE <<"a", [i \in 1..Len(vs) |-> vs[order[i]]]>>
        [] OTHER -> U
OnMap(v, code, bare, args, w) ==
  CASE code = 104 -> IF bare THEN <<"a", [i \in 1..Len(v[2]) |-> <<"s", v[2][i][1]>>]>> ELSE U
    [] code = 105 -> IF bare THEN <<"a", [i \in 1..Len(v[2]) |-> v[2][i][2]]>> ELSE U
    [] bare -> U
    [] code = 97 -> Typed(v, "a", args) [] code = 98 -> Typed(v, "b", args) [] code = 99 -> Typed(v, "y", args) [] code = 102 -> Typed(v, "m", args) [] code = 103 -> Typed(v, "s", args)
    [] code = 100 -> Number(v, args, w, FALSE) [] code = 101 -> Number(v, args, w, TRUE)
    [] OTHER -> U
Apply(v, call, w) ==
  LET code == call[2]
      bare == call[1] = "c"
      args == IF bare THEN <<>> ELSE call[3]
      (* whether bytes pass for a text is up to the reader of the arguments *)
      open == \E i \in 1..Len(args) : args[i][1] = "y"
  IN  IF code = 0 /\ bare THEN v
      ELSE IF open /\ v[1] # "json" THEN P
      ELSE CASE v[1] = "a" -> OnArray(v, code, bare, args, w)
             [] v[1] = "b" -> IF code = 34 /\ bare THEN <<"b", ~v[2]>> ELSE IF code = 32 /\ bare THEN AsString(v) ELSE U
             [] v[1] \in {"y", "h"} -> OnBytes(v, code, bare, args, w)
             [] v[1] = "i" -> OnInt(v, code, bare, args, w)
             [] v[1] = "f" -> OnFloat(v, code, bare, args)
             [] v[1] = "m" -> OnMap(v, code, bare, args, w)
             [] v[1] = "s" -> OnString(v[2], code, bare, args, w)
             [] v[1] = "json" -> IF code \in {118, 119} THEN Json(v[2], code, bare, args) ELSE IF code = 120 /\ bare THEN E("XmlParse") ELSE P
             [] v[1] = "xml" -> IF code = 120 /\ bare THEN (LET x == FromXml(v[2]) IN IF IsErr(x) THEN x ELSE <<"m", <<<<v[2][2], x>>>>>>)
                                ELSE IF code \in {118, 119} THEN E("JsonParse") ELSE P
             [] OTHER -> P
Run(v, script, w) == FoldLeft(LAMBDA x, c : IF IsErr(x) \/ x = P THEN x ELSE Apply(x, c, w), v, script)
Ran(q) == LET bad == Unpack(q.script) IN IF bad # "" THEN E(bad) ELSE Run(q.v, q.script, q.w)
(* integers only travel if 64 bits and a sign can hold them *)
Two64 == Reverse(<<1,8,4,4,6,7,4,4,0,7,3,7,0,9,5,5,1,6,1,6>>)
RECURSIVE Goes(_)
Goes(v) == CASE v[1] = "i" -> Cmp(v[3], Two64) < (IF v[2] THEN 1 ELSE 0) [] v[1] = "a" -> \A i \in 1..Len(v[2]) : Goes(v[2][i])
             [] v[1] = "m" -> \A i \in 1..Len(v[2]) : Goes(v[2][i][2]) [] OTHER -> TRUE
RECURSIVE Shallow(_, _)
Shallow(v, n) == n > 0 /\ CASE v[1] = "a" -> \A i \in 1..Len(v[2]) : Shallow(v[2][i], n - 1) [] v[1] = "m" -> \A i \in 1..Len(v[2]) : Shallow(v[2][i][2], n - 1) [] OTHER -> TRUE
(* what is nested deeper than the reader of the network's values goes may be lost *)
Back(v) == IF ~Shallow(v, 12) THEN {"same", "none", "other"} ELSE IF IsErr(v) THEN {"none"} ELSE IF Goes(v) THEN {"same"} ELSE {"none"}
ScriptInit == res = P
Scripted(q) == res' = Ran(q)
=============================================================================
