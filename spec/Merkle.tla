------------------------------- MODULE Merkle -------------------------------
(***************************************************************************)
(* Merkle trees and inclusion proofs (crypto/src/merkle.rs), over a free    *)
(* term algebra: the hash of the concatenation of a and b is the term       *)
(* "(ab)".  Free terms make the hash collision free, which is what the      *)
(* soundness of a proof rests on.  The harness works with the real          *)
(* SHA-256; the checker evaluates terms with an independent SHA-256 to      *)
(* name the values the code produced.                                       *)
(***************************************************************************)
EXTENDS Integers, Sequences

VARIABLES
  leaves,   \* Seq(Term)
  out       \* what the last operation answered

mVars == <<leaves, out>>

H(a, b) == "(" \o a \o b \o ")"

\* One level up: neighbours are hashed together, a lonely last one is promoted.
Up(s) == [i \in 1..((Len(s) + 1) \div 2) |->
            IF 2 * i <= Len(s) THEN H(s[2 * i - 1], s[2 * i]) ELSE s[2 * i - 1]]
RECURSIVE RootOf(_)
RootOf(s) == IF Len(s) = 1 THEN s[1] ELSE RootOf(Up(s))
Root(s) == IF s = <<>> THEN "empty" ELSE RootOf(s)

\* The other reading of the same tree: split at the greatest power of two below n.
RECURSIVE Pow2Below(_, _)
Pow2Below(n, p) == IF 2 * p >= n THEN p ELSE Pow2Below(n, 2 * p)
RECURSIVE SplitRoot(_)
SplitRoot(s) == IF Len(s) = 1 THEN s[1]
                ELSE LET k == Pow2Below(Len(s), 1)
                     IN  H(SplitRoot(SubSeq(s, 1, k)), SplitRoot(SubSeq(s, k + 1, Len(s))))

\* The path of leaf i (from 0) to the root: siblings, bottom up; bit 1 = sibling on the left.
RECURSIVE PathOf(_, _)
PathOf(s, i) ==
  IF Len(s) <= 1 THEN <<>>
  ELSE LET sib == IF i % 2 = 0 THEN i + 1 ELSE i - 1
           rest == PathOf(Up(s), i \div 2)
       IN  IF sib < Len(s) THEN <<[bit |-> i % 2, h |-> s[sib + 1]]>> \o rest ELSE rest

RECURSIVE Climb(_, _)
Climb(path, e) == IF path = <<>> THEN e
                  ELSE Climb(Tail(path), IF path[1].bit = 1 THEN H(path[1].h, e) ELSE H(e, path[1].h))

---------------------------------------------------------------------------
None == [some |-> FALSE, path |-> <<>>, root |-> "", ok |-> FALSE, bad |-> 0]
RootOut(s) == [prog |-> Root(s), fn |-> Root(s), full |-> Root(s), sym |-> Root(s)]

MInit == leaves = <<>> /\ out = RootOut(<<>>)

Build(s) == leaves' = s /\ out' = RootOut(s)
Push(x)  == leaves' = Append(leaves, x) /\ out' = RootOut(leaves')

(* Ask for the proof of leaf i.  `bad' counts the other elements (of all    *)
(* leaves, and the inner nodes of the proof) that it also accepts.          *)
Proof(i) ==
  /\ UNCHANGED leaves
  /\ out' = IF i >= Len(leaves) THEN None
            ELSE [some |-> TRUE, path |-> PathOf(leaves, i), root |-> Root(leaves), ok |-> TRUE, bad |-> 0]

(* Somebody else's proof: any path, any element, any claimed root.          *)
Forge(path, e, r) ==
  /\ UNCHANGED leaves
  /\ out' = [root |-> Climb(path, e), ok |-> Climb(path, e) = r]

---------------------------------------------------------------------------
TwoReadings == leaves # <<>> => Root(leaves) = SplitRoot(leaves)
Complete == \A i \in 0..(Len(leaves) - 1) : Climb(PathOf(leaves, i), leaves[i + 1]) = Root(leaves)
Sound == \A i \in 0..(Len(leaves) - 1), j \in 1..Len(leaves) :
           Climb(PathOf(leaves, i), leaves[j]) = Root(leaves) => leaves[j] = leaves[i + 1]
\* no leaf sequence of another length or content has this root (checked over the small model)
MInv == TwoReadings /\ Complete /\ Sound
=============================================================================
