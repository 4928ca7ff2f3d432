-------------------------------- MODULE Words --------------------------------
(* Unsigned 64-bit numbers as eight bytes, the biggest first: TLC's are of 32. *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt
Ones == [i \in 1..8 |-> 255]
High(w) == SubSeq(w, 1, 4)
(* by a number below 2^23 *)
DivWord(w, d) == FoldLeft(LAMBDA p, x : [q |-> Append(p.q, (p.r * 256 + x) \div d), r |-> (p.r * 256 + x) % d], [q |-> <<>>, r |-> 0], w).q
(* the product, or the biggest number there is *)
Carried(p) == IF p.c > 0 THEN Ones ELSE p.p
MulSat(w, m) == Carried(FoldLeft(LAMBDA p, x : [p |-> <<(x * m + p.c) % 256>> \o p.p, c |-> (x * m + p.c) \div 256], [p |-> <<>>, c |-> 0], Reverse(w)))
Powers == [i \in 1..31 |-> 2^(i - 1)]
Bits(n) == CHOOSE c \in {Cardinality({i \in 1..31 : m >= Powers[i]}) : m \in {n}} : TRUE
Below(a, b) == \E i \in 1..Len(a) : a[i] < b[i] /\ \A j \in 1..(i - 1) : a[j] = b[j]
MinWord(a, b) == IF Below(b, a) THEN b ELSE a
(* a word of four bytes as a fraction of 2^16 *)
Frac(t) == t[1] * 256 + t[2]
OfInt(n) == <<0, 0, 0, 0, n \div 16777216, (n \div 65536) % 256, (n \div 256) % 256, n % 256>>
AddWord(a, b) == FoldLeft(LAMBDA p, i : LET x == a[i] + b[i] + p.c IN [p |-> <<x % 256>> \o p.p, c |-> x \div 256], [p |-> <<>>, c |-> 0], <<8, 7, 6, 5, 4, 3, 2, 1>>).p
(* a less b, of which b is not the bigger *)
SubWord(a, b) == FoldLeft(LAMBDA p, i : LET x == 256 + a[i] - b[i] - p.c IN [p |-> <<x % 256>> \o p.p, c |-> 1 - x \div 256], [p |-> <<>>, c |-> 0], <<8, 7, 6, 5, 4, 3, 2, 1>>).p
Small(w) == High(w) = <<0, 0, 0, 0>>
Double(w) == AddWord(w, w)
Halve(w, k) == FoldLeft(LAMBDA x, i : DivWord(x, 2), w, [i \in 1..k |-> i])
=============================================================================
