----------------------------- MODULE OracleTrace ----------------------------
(* Validates recorded answers; see MarketTrace for the files.                *)
EXTENDS Oracle, TLC, Sequences, SequencesExt, Json, IOUtils

N == atoi(IOEnv.N)
VARIABLES file, bad

Judge(l) ==
  IF l.a.op = "look" THEN {}
  ELSE (IF Allowed(l.a, l.ret) THEN {} ELSE {"price"})
       \cup (IF Sane(l.a.a) /\ l.kind # l.a.a.k THEN {"kind"} ELSE {})

Run(lines) ==
  FoldLeft(LAMBDA acc, l :
             IF acc.bad # {} THEN acc
             ELSE IF "broken" \in DOMAIN l THEN [acc EXCEPT !.k = @ + 1, !.bad = {"broken"}]
             ELSE [k |-> acc.k + 1, bad |-> Judge(l)],
           [k |-> 0, bad |-> {}], lines)

Verdict(f) ==
  LET t == Run(ndJsonDeserialize(IOEnv.TRACES \o "/" \o ToString(f) \o ".ndjson"))
  IN IF t.bad = {} THEN <<>> ELSE <<t.k, t.bad>>

Init == file \in 1..N /\ bad = <<"unread">>
Next == bad = <<"unread">> /\ file' = file /\ bad' = Verdict(file)
Conforms == bad = <<>> \/ bad = <<"unread">>
=============================================================================
