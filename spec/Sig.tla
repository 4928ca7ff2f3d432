-------------------------------- MODULE Sig --------------------------------
(***************************************************************************)
(* Signatures (crypto/src/signature.rs).  A signature is a term: who signed *)
(* what.  It verifies for exactly that key and that digest, whatever was    *)
(* signed before; a changed one verifies for nothing; only 32-byte digests  *)
(* can be signed or verified.                                               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES sigs, out
sVars == <<sigs, out>>
NoSig == [k |-> "", m |-> "", t |-> 0]
Bind(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]
SInit == sigs = [s \in {} |-> NoSig] /\ out = [ok |-> TRUE, sig |-> NoSig]
Ans(ok, sig) == out' = [ok |-> ok, sig |-> sig]
Digest(m) == Len(m) = 64      \* in hexadecimal

Sign(s, k, m) == IF Digest(m) THEN sigs' = Bind(sigs, s, [k |-> k, m |-> m, t |-> 0]) /\ Ans(TRUE, [k |-> k, m |-> m, t |-> 0])
                 ELSE UNCHANGED sigs /\ Ans(FALSE, NoSig)
Verify(s, k, m) == UNCHANGED sigs /\ Ans(sigs[s] = [k |-> k, m |-> m, t |-> 0], sigs[s])
\* the t-th way of altering a signature (t > 0)
Tamper(s2, s, t) == sigs' = Bind(sigs, s2, [sigs[s] EXCEPT !.t = t]) /\ Ans(TRUE, sigs'[s2])
\* through its encodings and back
Recode(s) == UNCHANGED sigs /\ Ans(TRUE, sigs[s])
=============================================================================
