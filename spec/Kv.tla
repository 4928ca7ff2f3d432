--------------------------------- MODULE Kv ---------------------------------
(***************************************************************************)
(* The key/value storage interface (storage/src/storage.rs) and its         *)
(* backends.  A database is a map.  Keys, prefixes and values are byte      *)
(* strings, written "k<hex>".                                               *)
(*                                                                         *)
(* backend: "map" and "rocks" store; "none" refuses everything.  A storing  *)
(* backend may fail (fault = the failure armed by the environment): then    *)
(* the operation reports an error and has no effect at all, batches too.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

VARIABLES backend, db, out
kvVars == <<backend, db, out>>

EmptyDb == [k \in {} |-> ""]
Set(m, k, v) == [x \in DOMAIN m \cup {k} |-> IF x = k THEN v ELSE m[x]]
Del(m, k)    == [x \in DOMAIN m \ {k} |-> m[x]]
IsPrefixOf(p, k) == Len(p) <= Len(k) /\ SubSeq(k, 1, Len(p)) = p
Under(m, p)  == [x \in {k \in DOMAIN m : IsPrefixOf(p, k)} |-> m[x]]

\* A batch is applied in order: what happens to a key is what the last item about it says.
Apply(m, b) ==
  LET about(k) == {i \in 1..Len(b) : b[i].k = k}
      last(k)  == CHOOSE i \in about(k) : \A j \in about(k) : j <= i
      keys     == DOMAIN m \cup {b[i].k : i \in 1..Len(b)}
      alive    == {k \in keys : IF about(k) = {} THEN TRUE ELSE b[last(k)].put}
  IN  [k \in alive |-> IF about(k) = {} THEN m[k] ELSE b[last(k)].v]

KvInit(b) == backend = b /\ db = EmptyDb /\ out = [ok |-> TRUE, val |-> <<>>, all |-> EmptyDb, n |-> 0]

\* what an operation answers: ok, the value(s) read, and then the whole contents
Answer(ok, val) == out' = [ok |-> ok, val |-> val, all |-> db', n |-> Cardinality(DOMAIN db')]
Refused == UNCHANGED <<backend, db>> /\ Answer(FALSE, <<>>)
Works(fault) == backend # "none" /\ ~fault

Get(k, fault) ==
  IF Works(fault) THEN /\ UNCHANGED <<backend, db>>
                       /\ Answer(TRUE, IF k \in DOMAIN db THEN <<db[k]>> ELSE <<>>)
  ELSE Refused
Put(k, v, fault) ==
  IF Works(fault) THEN db' = Set(db, k, v) /\ UNCHANGED backend /\ Answer(TRUE, <<>>) ELSE Refused
Delete(k, fault) ==
  IF Works(fault) THEN db' = Del(db, k) /\ UNCHANGED backend /\ Answer(TRUE, <<>>) ELSE Refused
Write(b, fault) ==
  IF Works(fault) THEN db' = Apply(db, b) /\ UNCHANGED backend /\ Answer(TRUE, <<>>) ELSE Refused
(* Every pair whose key starts with the prefix, each once, and nothing else *)
Scan(p) ==
  IF Works(FALSE) THEN /\ UNCHANGED <<backend, db>>
                       /\ Answer(TRUE, <<Under(db, p), Cardinality(DOMAIN Under(db, p))>>)
  ELSE Refused

KvInv == backend = "none" => db = EmptyDb
=============================================================================
