-------------------------------- MODULE Keys --------------------------------
(***************************************************************************)
(* Hierarchical deterministic keys (crypto/src/key.rs): BIP-32 generation   *)
(* and derivation, SLIP-32 export and import.                               *)
(*                                                                         *)
(* A key is a term [root, path]: where it comes from and the indices        *)
(* applied since.  The term algebra is free: deriving is appending, two     *)
(* keys are the same exactly when their terms are.  What bytes a term       *)
(* stands for is either looked up in an independent BIP-32/SLIP-32          *)
(* implementation (replay), or learnt on first sight and held to (traces).  *)
(* Indices are strings, "3" or "3'" (hardened).                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

VARIABLES
  regs,    \* register -> key term
  slips,   \* slot -> [key, path]: exported strings
  out      \* answer of the last operation

kVars == <<regs, slips, out>>

NoKey == [root |-> "", path |-> <<>>]
Ans(ok, key, path) == [ok |-> ok, key |-> key, path |-> path]
Bind(f, r, v) == [x \in DOMAIN f \cup {r} |-> IF x = r THEN v ELSE f[x]]

RECURSIVE Cat(_)
Cat(p) == IF p = <<>> THEN "" ELSE "/" \o Head(p) \o Cat(Tail(p))
PathStr(p) == "m" \o Cat(p)

KInit == regs = [r \in {} |-> NoKey] /\ slips = [s \in {} |-> 0] /\ out = Ans(TRUE, NoKey, "")
Refuse == UNCHANGED <<regs, slips>> /\ out' = Ans(FALSE, NoKey, "")
Store(r, key, path) == regs' = Bind(regs, r, key) /\ UNCHANGED slips /\ out' = Ans(TRUE, key, path)

\* seed and HMAC key in hexadecimal
Gen(r, seed, mac) ==
  IF Len(seed) \div 2 \in 16..64 THEN Store(r, [root |-> "g|" \o seed \o "|" \o mac, path |-> <<>>], "")
  ELSE Refuse

Derive(r2, r, p) == Store(r2, [regs[r] EXCEPT !.path = @ \o p], PathStr(p))
Look(r) == Store(r, regs[r], "")            \* the public key, the debug output, a reload: nothing changes

(* Export at most 255 levels; import gives back what was exported.          *)
Export(s, r, p) ==
  IF Len(p) <= 255
  THEN slips' = Bind(slips, s, [key |-> regs[r], path |-> p]) /\ UNCHANGED regs /\ out' = Ans(TRUE, regs[r], PathStr(p))
  ELSE Refuse
Import(r, s) == Store(r, slips[s].key, PathStr(slips[s].path))

(* Somebody else's string.  Accepted exactly when it is well formed.        *)
Craft(r, c) ==
  IF /\ c.hrp = "xprv" /\ c.depth = Len(c.path) /\ c.extra = 0 /\ c.prefix = 0
     /\ c.secret_ok /\ ~c.flip
  THEN Store(r, [root |-> "r|" \o c.secret \o "|" \o c.cc, path |-> <<>>], PathStr(c.path))
  ELSE Refuse
=============================================================================
