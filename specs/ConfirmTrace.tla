---------------------------- MODULE ConfirmTrace ----------------------------
(* Validates recorded waits, and messages put into channels without waiting; *)
(* see MarketTrace for the files.                                            *)
EXTENDS Confirm, TLC, SequencesExt, Json, IOUtils

N == atoi(IOEnv.N)
VARIABLES file, bad

Least(a, b) == IF a < b THEN a ELSE b
Judge(l) ==
  CASE l.a.op = "send" ->
         LET s == Whole(l.a)
         IN (IF l.out = s.out THEN {} ELSE {"outcome"})
            \cup (IF l.out # s.out \/ s.out # "done" \/ (l.slot = s.slot /\ l.sig = 1) THEN {} ELSE {"slot"})
            \cup (IF l.sent = 1 THEN {} ELSE {"sent"})
            \cup (IF l.polls = s.polls /\ l.valids = s.valids THEN {} ELSE {"asked"})
            \cup (IF l.other = 0 THEN {} ELSE {"of-another"})
            \cup (IF l.naps >= l.polls - 1 THEN {} ELSE {"pauses"})
    [] l.a.op = "full" ->
         (IF l.got = [i \in 1..Least(l.a.sends, l.a.room) |-> i] THEN {} ELSE {"messages"})
         \cup (IF l.ok = 1 /\ l.late = l.a.shut THEN {} ELSE {"closed"})
    [] OTHER -> {}

Run(lines) ==
  FoldLeft(LAMBDA acc, l :
             IF acc.bad # {} THEN acc
             ELSE IF "broken" \in DOMAIN l THEN [acc EXCEPT !.k = @ + 1, !.bad = {"broken"}]
             ELSE [k |-> acc.k + 1, bad |-> Judge(l)],
           [k |-> 0, bad |-> {}], lines)

Verdict(f) ==
  LET t == Run(ndJsonDeserialize(IOEnv.TRACES \o "/" \o ToString(f) \o ".ndjson"))
  IN IF t.bad = {} THEN <<>> ELSE <<t.k, t.bad>>

Init == file \in 1..N /\ bad = <<"unread">>
Next == bad = <<"unread">> /\ file' = file /\ bad' = Verdict(file)
Conforms == bad = <<>> \/ bad = <<"unread">>
=============================================================================
