------------------------- MODULE CreateMarketTrace --------------------------
(* Validates recorded market creations; see MarketTrace for the files.       *)
EXTENDS CreateMarket, TLC, Sequences, SequencesExt, Json, IOUtils

N == atoi(IOEnv.N)
VARIABLES file, bad

Judge(l) ==
  IF l.a.op # "create" THEN {}
  ELSE IF l.ok # Sound(l.a) THEN {IF l.ok THEN "accepted" ELSE "refused"}
  ELSE IF ~l.ok THEN {}
  ELSE {f \in DOMAIN Made(l.a) : Made(l.a)[f] # l.made[f]}

Run(lines) ==
  FoldLeft(LAMBDA acc, l :
             IF acc.bad # {} THEN acc
             ELSE IF "broken" \in DOMAIN l THEN [acc EXCEPT !.k = @ + 1, !.bad = {"broken"}]
             ELSE [k |-> acc.k + 1, bad |-> Judge(l)],
           [k |-> 0, bad |-> {}], lines)

Verdict(f) ==
  LET t == Run(ndJsonDeserialize(IOEnv.TRACES \o "/" \o ToString(f) \o ".ndjson"))
  IN IF t.bad = {} THEN <<>> ELSE <<t.k, t.bad>>

Init == file \in 1..N /\ bad = <<"unread">>
Next == bad = <<"unread">> /\ file' = file /\ bad' = Verdict(file)
Conforms == bad = <<>> \/ bad = <<"unread">>
=============================================================================
