------------------------------ MODULE Sessions ------------------------------
(* Connections with other nodes: who called, who was called, who has introduced itself, and who agrees. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES s,      (* "iu", "ic", "ou", "oc", "cc" -> address -> connection: inbound or outbound, (un)consolidated, in consensus *)
          limit,  (* "ic", "oc" -> the most there may be, or -1 *)
          own, bits, done,
          range   (* address -> 0..32 -> the range it is of *)
sessVars == <<s, limit, own, bits, done, range>>
SessionsInit(r) == s = [k \in {"iu", "ic", "ou", "oc", "cc"} |-> <<>>] /\ limit = [k \in {"ic", "oc"} |-> -1] /\ own = 0 /\ bits = 0 /\ done = "" /\ range = r
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Drop(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
Size(f) == Cardinality(DOMAIN f)
Limit(k) == IF k \in {"ic", "oc", "cc"} THEN limit[IF k = "cc" THEN "oc" ELSE k] ELSE -1
Full(k) == Limit(k) # -1 /\ Size(s[k]) >= Limit(k)
Refusal(k, a) == IF Full(k) THEN "full" ELSE IF a \in DOMAIN s[k] THEN "known" ELSE "ok"
Same == UNCHANGED <<limit, own, bits, range>>
(* a refusal changes nothing *)
Change(d, t) == done' = d /\ s' = (IF d = "ok" THEN t ELSE s) /\ Same
Register(side, a, ref) == IF side = "f" THEN Change("feeler", s) ELSE LET k == side \o "u" IN Change(Refusal(k, a), [s EXCEPT ![k] = Put(@, a, ref)])
Leave(side, part, a) ==
  IF side = "f" THEN Change("feeler", s)
  ELSE LET k == side \o part IN
       Change(IF a \in DOMAIN s[k] THEN "ok" ELSE "unknown",
              IF k = "oc" THEN [s EXCEPT ![k] = Drop(@, a), !["cc"] = Drop(@, a)] ELSE [s EXCEPT ![k] = Drop(@, a)])
Consolidate(side, a) ==
  IF side = "f" THEN Change("feeler", s)
  ELSE LET u == side \o "u"  c == side \o "c" IN
       Change(IF a \notin DOMAIN s[u] THEN "unknown" ELSE Refusal(c, a), [s EXCEPT ![u] = Drop(@, a), ![c] = Put(@, a, IF a \in DOMAIN s[u] THEN s[u][a] ELSE 0)])
Agree(a) == Change(IF a \notin DOMAIN s["oc"] THEN "stranger" ELSE Refusal("cc", a), [s EXCEPT !["cc"] = Put(@, a, IF a \in DOMAIN s["oc"] THEN s["oc"][a] ELSE 0)])
Disagree(a) == Change(IF a \in DOMAIN s["cc"] THEN "ok" ELSE "unknown", [s EXCEPT !["cc"] = Drop(@, a)])
Limits(i, o) == limit' = [k \in {"ic", "oc"} |-> IF k = "ic" THEN i ELSE o] /\ done' = "ok" /\ UNCHANGED <<s, own, bits, range>>
Address(a) == own' = a /\ done' = "ok" /\ UNCHANGED <<s, limit, bits, range>>
Bits(n) == bits' = n /\ done' = "ok" /\ UNCHANGED <<s, limit, own, range>>

RangeOf(a) == range[a][bits + 1]
(* the range of a caller, if another one is of it *)
Similar(a) == IF \E b \in DOMAIN s["iu"] \cup DOMAIN s["ic"] : RangeOf(b) = RangeOf(a) THEN <<RangeOf(a)>> ELSE <<>>
Eligible(a) == a \notin DOMAIN s["ou"] \cup DOMAIN s["oc"] /\ a # own
Outbound == Size(s["ou"]) + Size(s["oc"])
Needed == limit["oc"] = -1 \/ Outbound < limit["oc"]
Missing == IF limit["oc"] = -1 THEN 1 ELSE IF Outbound < limit["oc"] THEN limit["oc"] - Outbound ELSE 0
Someone(safe, got) == LET f == s[IF safe THEN "cc" ELSE "oc"] IN IF f = <<>> THEN got = -1 ELSE \E a \in DOMAIN f : f[a] = got
List(f) == {<<a, f[a]>> : a \in DOMAIN f}
(* -- what has to hold ------------------------------------------------------------------------ *)
SessInv == /\ \A a \in DOMAIN s["cc"] : a \in DOMAIN s["oc"] /\ s["cc"][a] = s["oc"][a]
Within == [][\A k \in {"ic", "oc"} : Size(s'[k]) > Size(s[k]) => Size(s'[k]) <= limit[k] \/ limit[k] = -1]_sessVars
=============================================================================
