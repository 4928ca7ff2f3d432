------------------------------ MODULE Protected ------------------------------
(***************************************************************************)
(* Containers of secrets (protected/src).  What goes in comes out (also     *)
(* through the binary encoding), comparisons are those of the bytes, what   *)
(* is printed does not depend on the secret, and the memory a container     *)
(* held is wiped before it is given back: `freed' counts blocks returned to *)
(* the allocator that still show the secret.                                *)
(* Secrets are strings; the order of the small alphabet used is byte order. *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES regs, out
pVars == <<regs, out>>
Bind(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]
Unbind(f, x) == [y \in DOMAIN f \ {x} |-> f[y]]
PInit == regs = [r \in {} |-> ""] /\ out = [val |-> "", dbg |-> "", eq |-> FALSE, freed |-> 0]
Shown(kind) == IF kind = "str" THEN "ProtectedString(***)" ELSE "Protected(***)"
Ans(v, dbg, eq) == out' = [val |-> v, dbg |-> dbg, eq |-> eq, freed |-> 0]

New(r, kind, how, v) == regs' = Bind(regs, r, [kind |-> kind, v |-> v]) /\ Ans(v, Shown(kind), TRUE)
Clone(r2, r)  == regs' = Bind(regs, r2, regs[r]) /\ Ans(regs[r].v, Shown(regs[r].kind), TRUE)
ToBytes(r)    == regs' = Bind(regs, r, [regs[r] EXCEPT !.kind = "bytes"]) /\ Ans(regs[r].v, Shown("bytes"), TRUE)
Reload(r)     == UNCHANGED regs /\ Ans(regs[r].v, Shown(regs[r].kind), TRUE)
Wipe(r, v)    == regs' = Bind(regs, r, [regs[r] EXCEPT !.v = v]) /\ Ans(v, Shown(regs[r].kind), TRUE)
Drop(r)       == regs' = Unbind(regs, r) /\ Ans("", "", FALSE)
Compare(r, q) == UNCHANGED regs /\ Ans("", "", regs[r].v = regs[q].v)
=============================================================================
