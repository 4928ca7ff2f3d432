------------------------------- MODULE Partial -------------------------------
(***************************************************************************)
(* #[derive(PartialStruct)] (partial_struct/src/lib.rs): for a struct S it  *)
(* makes a struct PartialS with the same fields, each wrapped in an Option  *)
(* unless it is marked `skip` (type kept) or `ty = "T"` (type replaced);    *)
(* attributes inside partial_struct(...) are passed on to what they mark,   *)
(* other attributes are kept, protobuf_convert is left out.                 *)
(*                                                                          *)
(* A shape is [style, conv, cdef, deny, fields]; a field is                 *)
(*   [ty, mark, pass, also]                                                 *)
(* A document gives per field "missing", "null", "full" or (Inner) "part",  *)
(* plus whether a key that belongs to no field is present.                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
Types == {"u32", "String", "Option<u32>", "bool", "Inner", "Vec<u8>"}
Marks == {"plain", "skip", "ty"}
Pass  == {"none", "default", "rename"}
Also  == {"none", "doc", "conv"}
PType(f) == CASE f.mark = "skip" -> f.ty [] f.mark = "ty" -> "PartialInner" [] OTHER -> "Option<" \o f.ty \o ">"
WellFormed(f) == f.mark = "ty" => f.ty = "Inner"

TypesOf(sh) == [i \in 1..Len(sh.fields) |-> PType(sh.fields[i])]

Val(ty) == CASE ty = "u32" -> "7" [] ty = "String" -> "s" [] ty = "bool" -> "true" [] ty = "Option<u32>" -> "Some(7)" [] ty = "Vec<u8>" -> "[1,2]" [] OTHER -> "Inner{1,2}"
Zero(ty) == CASE ty = "u32" -> "0" [] ty = "String" -> "" [] ty = "bool" -> "false" [] ty = "Option<u32>" -> "None" [] ty = "Vec<u8>" -> "[]" [] OTHER -> "Inner{0,0}"
Dflt(f) == CASE f.mark = "skip" -> Zero(f.ty) [] f.mark = "ty" -> "PartialInner{None,None}" [] OTHER -> "None"
Bad == "error"
\* what loading one field gives; cdef: the whole struct falls back to its default
Load(f, d, cdef) ==
  CASE d = "missing" -> IF cdef \/ f.pass = "default" THEN Dflt(f)
                        ELSE IF f.mark = "plain" THEN "None"
                        ELSE IF f.mark = "skip" /\ f.ty = "Option<u32>" THEN "None"
                        ELSE Bad
    [] d = "null" -> IF f.mark = "plain" \/ (f.mark = "skip" /\ f.ty = "Option<u32>") THEN "None" ELSE Bad
    [] d = "part" -> CASE f.ty # "Inner" -> Bad
                       [] f.mark = "ty" -> "PartialInner{Some(1),None}"
                       [] OTHER -> Bad
    [] OTHER -> CASE f.mark = "skip" -> Val(f.ty)
                  [] f.mark = "ty" -> "PartialInner{Some(1),Some(2)}"
                  [] OTHER -> "Some(" \o Val(f.ty) \o ")"
LoadAll(sh, doc, extra) ==
  LET r == [i \in 1..Len(sh.fields) |-> Load(sh.fields[i], doc[i], sh.cdef)]
      bad == (extra /\ sh.deny) \/ \E i \in 1..Len(r) : r[i] = Bad
  IN IF bad THEN [ok |-> FALSE, vals |-> <<>>] ELSE [ok |-> TRUE, vals |-> r]
Defaults(sh) == [ok |-> TRUE, vals |-> [i \in 1..Len(sh.fields) |-> Dflt(sh.fields[i])]]
\* An empty document loads to the default exactly when no field insists on being given,
\* and a partial struct of plain fields only accepts every subset of its keys.
EmptyIsDefault(sh) ==
  LET r == LoadAll(sh, [i \in 1..Len(sh.fields) |-> "missing"], FALSE)
  IN r.ok => r = Defaults(sh)
PlainAcceptsAll(sh, doc) ==
  ((\A i \in 1..Len(sh.fields) : sh.fields[i].mark = "plain" /\ doc[i] # "part") => LoadAll(sh, doc, FALSE).ok)
=============================================================================
