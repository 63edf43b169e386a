----------------------------- MODULE AccessTrace ----------------------------
(* Validates recorded attempts; see MarketTrace for the files. The first     *)
(* line of a file has the setup.                                             *)
EXTENDS Access, TLC, SequencesExt, Json, IOUtils

N == atoi(IOEnv.N)
VARIABLES file, bad

Judge(s, l) ==
  IF l.a.op # "try" THEN {}
  ELSE LET v == Verdict(s, l.a)
       IN (IF v = "works" /\ ~l.ok THEN {"refused"} ELSE {})
          \cup (IF v = "refused" /\ l.ok THEN {"accepted"} ELSE {})
          \cup (IF l.has THEN {} ELSE {"unknown-role"})

Run(lines) ==
  FoldLeft(LAMBDA acc, l :
             IF acc.bad # {} THEN acc
             ELSE IF "broken" \in DOMAIN l THEN [acc EXCEPT !.k = @ + 1, !.bad = {"broken"}]
             ELSE [k |-> acc.k + 1, bad |-> Judge(lines[1].a, l)],
           [k |-> 0, bad |-> {}], lines)

Verdict1(f) ==
  LET t == Run(ndJsonDeserialize(IOEnv.TRACES \o "/" \o ToString(f) \o ".ndjson"))
  IN IF t.bad = {} THEN <<>> ELSE <<t.k, t.bad>>

Init == file \in 1..N /\ bad = <<"unread">>
Next == bad = <<"unread">> /\ file' = file /\ bad' = Verdict1(file)
Conforms == bad = <<>> \/ bad = <<"unread">>
=============================================================================
