------------------------------- MODULE Vault -------------------------------
(***************************************************************************)
(* Encryption at rest (crypto/src/cipher.rs, pbkdf2.rs): AES-256-CBC with   *)
(* PKCS#7 padding, keys stretched from passwords by PBKDF2-HMAC-SHA256.     *)
(* A ciphertext is a term; decrypting with the very same key and iv gives   *)
(* the plaintext back, and nothing else does.                               *)
(* Byte strings are hexadecimal; t > 0 is the t-th alteration.              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES cts, out
vVars == <<cts, out>>
NoCt == [key |-> "", iv |-> "", pt |-> "", t |-> 0, len |-> 0]
Bind(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]
VInit == cts = [c \in {} |-> NoCt] /\ out = [ok |-> TRUE, ct |-> NoCt, must |-> FALSE, pt |-> "", not |-> FALSE]
Good(key, iv) == Len(key) = 64 /\ Len(iv) = 32
PadLen(pt) == ((Len(pt) \div 2) \div 16 + 1) * 16

(* `must': the answer is determined; otherwise (`not') any refusal and any  *)
(* plaintext but the original is fine.                                      *)
Encrypt(c, key, iv, pt) ==
  IF Good(key, iv)
  THEN LET x == [key |-> key, iv |-> iv, pt |-> pt, t |-> 0, len |-> PadLen(pt)]
       IN  cts' = Bind(cts, c, x) /\ out' = [ok |-> TRUE, ct |-> x, must |-> TRUE, pt |-> "", not |-> FALSE]
  ELSE UNCHANGED cts /\ out' = [ok |-> FALSE, ct |-> NoCt, must |-> TRUE, pt |-> "", not |-> FALSE]
\* flip one bit (cut = 0) or cut bytes off the end
Alter(c2, c, t, cut) ==
  /\ cts' = Bind(cts, c2, [cts[c] EXCEPT !.t = t, !.len = IF @ < cut THEN 0 ELSE @ - cut])
  /\ out' = [ok |-> TRUE, ct |-> cts'[c2], must |-> TRUE, pt |-> "", not |-> FALSE]
Decrypt(c, key, iv) ==
  LET x == cts[c] IN
  /\ UNCHANGED cts
  /\ out' = IF ~Good(key, iv) \/ x.len % 16 # 0 \/ x.len = 0
            THEN [ok |-> FALSE, ct |-> x, must |-> TRUE, pt |-> "", not |-> FALSE]
            ELSE IF x.key = key /\ x.iv = iv /\ x.t = 0
            THEN [ok |-> TRUE, ct |-> x, must |-> TRUE, pt |-> x.pt, not |-> FALSE]
            ELSE [ok |-> TRUE, ct |-> x, must |-> FALSE, pt |-> x.pt, not |-> TRUE]
\* password stretching and randomness: functions, judged facet by facet
Stretch(pw, salt, n) == UNCHANGED cts /\ out' = [ok |-> TRUE, ct |-> [key |-> pw, iv |-> salt, pt |-> ToString(n), t |-> -1, len |-> 32], must |-> TRUE, pt |-> "", not |-> FALSE]
Random(n, serial) == UNCHANGED cts /\ out' = [ok |-> TRUE, ct |-> [key |-> "", iv |-> "", pt |-> ToString(serial), t |-> -2, len |-> n], must |-> TRUE, pt |-> "", not |-> FALSE]
=============================================================================
