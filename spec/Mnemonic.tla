------------------------------ MODULE Mnemonic ------------------------------
(***************************************************************************)
(* Seed phrases (crypto/src/mnemonic.rs), BIP-39 English.                   *)
(* A phrase is accepted iff it has 12, 15, 18, 21 or 24 words of the list   *)
(* and its checksum is right (`sum', judged by an independent               *)
(* implementation when the script is made); the seed is a function of       *)
(* phrase and passphrase; generated phrases are acceptable, of the length   *)
(* asked for, and never repeat.                                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES given, out
mnVars == <<given, out>>
MnInit == given = {} /\ out = [ok |-> TRUE, n |-> 0, term |-> <<>>]
Lengths == {12, 15, 18, 21, 24}
Seed(phrase, n, known, sum, pass) ==
  /\ UNCHANGED given
  /\ out' = IF n \in Lengths /\ known /\ sum THEN [ok |-> TRUE, n |-> n, term |-> <<phrase, pass>>]
            ELSE [ok |-> FALSE, n |-> 0, term |-> <<>>]
\* pieces: what its entropy consists of, eight bytes and more at a time; none of them is ever seen again
Generate(n, phrase, pieces) ==
  /\ LET new == {pieces[i] : i \in 1..Len(pieces)}
     IN  Cardinality(new) = Len(pieces) /\ new \cap given = {} /\ given' = given \cup new
  /\ out' = [ok |-> TRUE, n |-> n, term |-> <<phrase, "">>]
=============================================================================
