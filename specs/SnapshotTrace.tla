---------------------------- MODULE SnapshotTrace ---------------------------
(* Validates recorded snapshots; see MarketTrace for the files.              *)
EXTENDS Snapshot, TLC, SequencesExt, Json, IOUtils

N == atoi(IOEnv.N)
VARIABLES file, bad

Set(s) == {s[i] : i \in 1..Len(s)}
(* The state the source is in, and what is wrong with that                   *)
Judged(st, a, l) ==
  LET s == Act(st, a)
      b == l.begun > s.st.begun
      t == IF b THEN Begin(s.st) ELSE s.st
  IN [st |-> t,
      bad |-> (IF (b => MayBegin(s.st)) /\ l.begun = t.begun THEN {} ELSE {"begun-early"})
              \cup (IF b \/ ~(MustBegin(s.st, a) /\ MayBegin(s.st)) THEN {} ELSE {"not-begun"})
              \cup (IF Len(l.msgs) = Len(s.msgs) THEN {} ELSE {"messages"})
              \cup (IF \A i \in 1..Least(Len(l.msgs), Len(s.msgs)) :
                         Set(l.msgs[i]) = s.msgs[i] /\ Cardinality(s.msgs[i]) = Len(l.msgs[i]) THEN {} ELSE {"accounts"})
              \cup (IF Set(l.open) = Set(t.open) /\ Len(l.open) = Len(t.open) THEN {} ELSE {"oracles"})
              \cup (IF l.odd = 0 THEN {} ELSE {"request"})]

Run(lines) ==
  FoldLeft(LAMBDA acc, l :
             IF acc.bad # {} THEN acc
             ELSE IF "broken" \in DOMAIN l THEN [acc EXCEPT !.k = @ + 1, !.bad = {"broken"}]
             ELSE LET s == Judged(IF l.at = 0 THEN Start(l.a.cfg) ELSE acc.st[l.at], l.a, l)
                  IN [k |-> acc.k + 1, st |-> Append(SubSeq(acc.st, 1, l.at), s.st), bad |-> s.bad],
           [k |-> 0, st |-> <<>>, bad |-> {}], lines)

Verdict(f) ==
  LET r == Run(ndJsonDeserialize(IOEnv.TRACES \o "/" \o ToString(f) \o ".ndjson"))
  IN IF r.bad = {} THEN <<>> ELSE <<r.k, r.bad>>

Init == file \in 1..N /\ bad = <<"unread">>
Next == bad = <<"unread">> /\ file' = file /\ bad' = Verdict(file)
Conforms == bad = <<>> \/ bad = <<"unread">>
=============================================================================
