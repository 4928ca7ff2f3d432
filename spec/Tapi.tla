-------------------------------- MODULE Tapi --------------------------------
(* Upgrades by vote: the blocks signal bits, and what four fifths of the epochs of a whole period
   signal comes into force 21 epochs later, once and for all.  An epoch without a block says no. *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt, TLC
VARIABLES slots, force, last
tapiVars == <<slots, force, last>>
(* slots: bit -> [w, init, period, end, votes]; force: upgrade -> epoch it is in force from *)
TapiInit == slots = <<>> /\ force = <<>> /\ last = 0
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Drop(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
Length(sl) == IF DOMAIN sl = {} THEN 0 ELSE 1 + CHOOSE b \in DOMAIN sl : \A c \in DOMAIN sl : c <= b

Open(sl, b, e) == b \in DOMAIN sl /\ e >= sl[b].init /\ e < sl[b].end
(* one epoch of one bit *)
Count(s, b, up, e, block, avoid) ==
  IF ~Open(s.slots, b, e) \/ s.slots[b].w \in DOMAIN s.force \cup avoid THEN s
  ELSE LET x == s.slots[b]
           n == x.votes + IF up THEN 1 ELSE 0
       IN  IF (e - x.init) % x.period # 0 THEN [s EXCEPT !.slots[b].votes = n]
           ELSE [slots |-> [s.slots EXCEPT ![b].votes = 0],
                 force |-> IF (n * 100) \div x.period >= 80 THEN Put(s.force, x.w, block + 21) ELSE s.force]
Tick(s, bits, e, block, avoid) == FoldLeft(LAMBDA r, b : Count(r, b, b \in bits, e, block, avoid), s, SetToSortSeq(DOMAIN s.slots, <))
Silent(from, to) == [i \in 1..(to - from + 1) |-> from + i - 1]
After(s, bits, e, block, avoid) ==
  Tick(IF last = 0 THEN s ELSE FoldLeft(LAMBDA r, m : Tick(r, {}, m, block, avoid), s, Silent(last + 1, e - 1)), bits, e, block, avoid)

Offer(b, x) == slots' = (IF b > 31 THEN slots ELSE Put(slots, b, x)) /\ UNCHANGED <<force, last>>
Withdraw(b) == slots' = Drop(slots, b) /\ UNCHANGED <<force, last>>
Vote(bits, e, block, avoid) ==
  \E n \in {After([slots |-> slots, force |-> force], bits, e, block, avoid)} : slots' = n.slots /\ force' = n.force /\ last' = e

(* what has been in force before the votes *)
WipNames == {"WIP0008", "WIP0009-0011-0012", "THIRD_HARD_FORK", "WIP0014-0016", "WIP0017-0018-0019", "WIP0020-0021",
          "WIP0022", "WIP0023", "WIP0024", "WIP0025", "WIP0026", "WIP0027", "WIP0028"}
Known(env) == IF env = "main"
  THEN "WIP0008" :> 192000 @@ "WIP0009-0011-0012" :> 376320 @@ "THIRD_HARD_FORK" :> 445440 @@ "WIP0014-0016" :> 549141 @@ "WIP0017-0018-0019" :> 683541
       @@ "WIP0020-0021" :> 1059861 @@ "WIP0022" :> 1708901 @@ "WIP0023" :> 1708901 @@ "WIP0024" :> 1708901 @@ "WIP0025" :> 1708901
       @@ "WIP0026" :> 1708901 @@ "WIP0027" :> 1708901 @@ "WIP0028" :> 3048960
  ELSE [x \in WipNames |-> 0]
Load(env) == /\ force' = Known(env) @@ force
             /\ slots' = <<>> /\ UNCHANGED last

InForce(f, w, e) == w \in DOMAIN f /\ e >= f[w]
(* what the rules ask, by the number of the proposal *)
Part == [x \in {"8"} |-> "WIP0008"] @@ [x \in {"9"} |-> "WIP0009-0011-0012"] @@ [x \in {"fork3"} |-> "THIRD_HARD_FORK"]
        @@ [x \in {"14", "16"} |-> "WIP0014-0016"] @@ [x \in {"17", "18", "19"} |-> "WIP0017-0018-0019"] @@ [x \in {"20", "21"} |-> "WIP0020-0021"]
        @@ [x \in {"22"} |-> "WIP0022"] @@ [x \in {"23"} |-> "WIP0023"] @@ [x \in {"24"} |-> "WIP0024"] @@ [x \in {"25"} |-> "WIP0025"]
        @@ [x \in {"26"} |-> "WIP0026"] @@ [x \in {"27"} |-> "WIP0027"] @@ [x \in {"28"} |-> "WIP0028"]
Rules(f, e) == {r \in DOMAIN Part : InForce(f, Part[r], e)}

Forks(e, env) == <<env # "main" \/ e >= 192000, env # "main" \/ e >= 376320, env = "main" /\ e >= 445440>>

(* what everybody sees *)
List(sl) == [i \in 1..Cardinality(DOMAIN sl) |-> LET b == SetToSortSeq(DOMAIN sl, <)[i] IN <<b, sl[b].w, sl[b].init, sl[b].period, sl[b].end, sl[b].votes>>]
Pending(sl, f) == SelectSeq(List(sl), LAMBDA x : x[2] \notin DOMAIN f)
Seen == [slots |-> List(slots), force |-> {<<w, force[w]>> : w \in DOMAIN force}, len |-> Length(slots), last |-> last, pending |-> Pending(slots, force)]
Voting(e) == {slots[b].w : b \in {b \in DOMAIN slots : Open(slots, b, e)}}

(* -- what has to hold ------------------------------------------------------------------------ *)
(* nothing in force is postponed, brought forward or forgotten *)
Kept == [][\A w \in DOMAIN force : w \in DOMAIN force' /\ (slots' # <<>> => force'[w] = force[w])]_tapiVars
VotesInv == \A b \in DOMAIN slots : slots[b].votes <= slots[b].period
(* who signed, when no committee could be drawn: the superblocks between these, and they *)
Emergency(i) ==
  CASE i > 750 /\ i < 1344 -> <<"wit1asdpcspwysf0hg5kgwvgsp2h6g65y5kg9gj5dz", "wit13l337znc5yuualnxfg9s2hu9txylntq5pyazty", "wit17nnjuxmfuu92l6rxhque2qc3u2kvmx2fske4l9", "wit1drcpu0xc2akfcqn8r69vw70pj8fzjhjypdcfsq", "wit1cyrlc64hyu0rux7hclmg9rxwxpa0v9pevyaj2c", "wit1g0rkajsgwqux9rnmkfca5tz6djg0f87x7ms5qx", "wit1etherz02v4fvqty6jhdawefd0pl33qtevy7s4z">>
    [] i > 44165 /\ i < 45509 -> <<"wit1drcpu0xc2akfcqn8r69vw70pj8fzjhjypdcfsq", "wit1drcpu3x42y5vp7w3pe203xrwpnth2pnt6c0dm9", "wit1asdpcspwysf0hg5kgwvgsp2h6g65y5kg9gj5dz", "wit1cyrlc64hyu0rux7hclmg9rxwxpa0v9pevyaj2c", "wit1etherz02v4fvqty6jhdawefd0pl33qtevy7s4z", "wit13l337znc5yuualnxfg9s2hu9txylntq5pyazty">>
    [] i > 144200 /\ i < 145500 -> <<"wit1asdpcspwysf0hg5kgwvgsp2h6g65y5kg9gj5dz", "wit1drcpu0xc2akfcqn8r69vw70pj8fzjhjypdcfsq", "wit1drcpu3x42y5vp7w3pe203xrwpnth2pnt6c0dm9", "wit1fkps4hsrvadr2u9veyk27xrv8yhmldaj8zdlpj", "wit1gnw6gvmkzfwe5tyjd55h7t2j4s68xappl85g5v", "wit1q679r2d8yk0ntmk48k6nprc3fervd627vqe39l", "wit1wl200uau9zp072ps0wfpq74kd0a65uhd5c4dfk">>
    [] i > 224300 /\ i < 304896 -> <<"wit1c0ucz2u9hwgqflkn4xjeyxtla9tqp0sderzkjr", "wit1drcpu0xc2akfcqn8r69vw70pj8fzjhjypdcfsq", "wit1drcpu3x42y5vp7w3pe203xrwpnth2pnt6c0dm9", "wit1llz4vw9mszjqud5pqavf84208entwz73lxekzm", "wit1nawuk8f2hckz6ct9wlzg95fhg3kyjzlrrd99qz", "wit1sp8xnclrhm4j5lrzxwnxerdetzsjqw88kwr05f">>
    [] OTHER -> <<>>
=============================================================================
