----------------------------- MODULE ChainTrace -----------------------------
(* Validates recorded sequences of messages to the client's chain data; see  *)
(* MarketTrace for the files.                                                *)
EXTENDS Chain, TLC, SequencesExt, Json, IOUtils

N == atoi(IOEnv.N)
VARIABLES file, bad

(* The fetcher on top: every way to ask it gives the same                    *)
Highest(S) == CHOOSE x \in S : \A y \in S : y <= x
Fetcher(t, l) ==
  LET want == <<Answer(t, 1)[2], Answer(t, 2)[2]>>
      v == l.via
      k == l.a.k
  IN (IF \A i \in 1..Len(v.ways) : v.ways[i] = want THEN {} ELSE {"fetched"})
     \cup (IF v.others = 0 THEN {} ELSE {"listed"})
     \cup (IF v.latest = Highest({v.slots[i] : i \in 1..Len(v.slots)}) /\ v.never = 0 THEN {} ELSE {"processed-in"})
     \cup (IF "got" \in DOMAIN l.said /\ l.said.got # (IF l.a.op = "gone" THEN -1 ELSE want[k]) THEN {"refreshed"} ELSE {})
     \cup (IF "slot" \in DOMAIN l.said /\ l.said.slot # l.a.s THEN {"refreshed-slot"} ELSE {})
     \cup (IF l.a.op = "gone" /\ "got" \notin DOMAIN l.said THEN {"made-up"} ELSE {})

Judge(t, l) ==
  IF t.odd THEN {}
  ELSE LET want == <<Answer(t, 1), Answer(t, 2)>>
       IN (IF l.ans = want THEN {} ELSE {"account"})
          \cup (IF l.all = want THEN {} ELSE {"snapshot"})
          \cup (IF l.each = want THEN {} ELSE {"iteration"})
          \cup (IF l.raw = <<want[1][2], want[2][2]>> THEN {} ELSE {"data"})
          \cup (IF l.extra THEN {"extra"} ELSE {})
          \cup (IF "via" \in DOMAIN l THEN Fetcher(t, l) ELSE {})
          \* one write per account and slot at most, and no slots before the root
          \cup (IF l.writes <= Cardinality({<<w.k, w.s>> : w \in t.writes}) THEN {} ELSE {"duplicates"})
          \cup (IF l.slots <= Cardinality(DOMAIN t.slots) THEN {} ELSE {"slots-kept"})

Run(lines) ==
  FoldLeft(LAMBDA acc, l :
             IF acc.bad # {} THEN acc
             ELSE IF "broken" \in DOMAIN l THEN [acc EXCEPT !.k = @ + 1, !.bad = {"broken"}]
             ELSE LET t == IF l.at = 0 THEN Start ELSE Step(acc.st[l.at], l.a, l.at)
                  IN [k |-> acc.k + 1, st |-> Append(SubSeq(acc.st, 1, l.at), t), bad |-> Judge(t, l)],
           [k |-> 0, st |-> <<>>, bad |-> {}], lines)

Verdict(f) ==
  LET r == Run(ndJsonDeserialize(IOEnv.TRACES \o "/" \o ToString(f) \o ".ndjson"))
  IN IF r.bad = {} THEN <<>> ELSE <<r.k, r.bad>>

Init == file \in 1..N /\ bad = <<"unread">>
Next == bad = <<"unread">> /\ file' = file /\ bad' = Verdict(file)
Conforms == bad = <<>> \/ bad = <<"unread">>
=============================================================================
