------------------------------ MODULE Confirm -------------------------------
(* How the Rust client waits for a transaction it sent: it asks the node for *)
(* its status until that is good enough, or until the transaction can no     *)
(* longer be taken.                                                          *)
(*                                                                           *)
(* The node's answers: take (1, or 0 when it refuses the transaction);       *)
(* recent, the hash for transactions that carry a nonce instead of one (1,   *)
(* or 9 for no answer); poll, a status: 0 none yet, 1 processed, 2           *)
(* confirmed, 3 final, negative when the transaction failed, 9 no answer;    *)
(* valid, whether the hash can still be used (1, 0, or 9 for no answer).     *)
(*                                                                           *)
(* State: com, the commitment wanted; nonce; at, what the client waits for;  *)
(* out, its result: done, failed (by the program) or unknown; slot, that of  *)
(* the status reported; polls and valids, how often it asked.                *)
EXTENDS Integers, Sequences

Start(com, nonce) == [com |-> com, nonce |-> nonce, at |-> "take", out |-> "none", slot |-> 0, polls |-> 0, valids |-> 0]

End(st, how, slot) == [st EXCEPT !.at = "over", !.out = how, !.slot = slot]
Abs(x) == IF x < 0 THEN -x ELSE x
SlotOf(st) == 100 + st.polls

Step(st, op, v) ==
  IF st.at # op THEN st
  ELSE CASE op = "take" -> IF v = 0 THEN End(st, "failed", 0) ELSE [st EXCEPT !.at = IF st.nonce = 1 THEN "recent" ELSE "poll"]
         [] op = "recent" -> IF v = 9 THEN End(st, "unknown", 0) ELSE [st EXCEPT !.at = "poll"]
         [] op = "poll" ->
              LET s == [st EXCEPT !.polls = @ + 1]
              IN IF v = 9 THEN End(s, "unknown", 0)
                 ELSE IF Abs(v) >= st.com THEN (IF v > 0 THEN End(s, "done", SlotOf(st)) ELSE End(s, "failed", 0))
                 ELSE [s EXCEPT !.at = "valid"]
         [] op = "valid" ->
              LET s == [st EXCEPT !.valids = @ + 1]
              IN IF v = 1 THEN [s EXCEPT !.at = "poll"] ELSE End(s, "unknown", 0)
         [] OTHER -> st

(* All of it: a.polls are the statuses and validities the node tells, in     *)
(* turn; then it tells that the transaction is final                         *)
RECURSIVE Rounds(_, _)
Rounds(st, l) ==
  IF st.at = "over" THEN st
  ELSE IF l = <<>> THEN Step(st, "poll", 3)
  ELSE Rounds(Step(Step(st, "poll", l[1][1]), "valid", l[1][2]), Tail(l))

Whole(a) == Rounds(Step(Step(Start(a.com, a.nonce), "take", a.take), "recent", a.recent), a.polls)
=============================================================================
