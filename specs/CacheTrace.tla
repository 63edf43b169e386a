----------------------------- MODULE CacheTrace -----------------------------
(* Validates recorded sequences of operations on the remembering fetcher;    *)
(* see MarketTrace for the files.                                            *)
EXTENDS Cache, TLC, SequencesExt, Json, IOUtils

N == atoi(IOEnv.N)
VARIABLES file, bad

Judge(s, l) ==
  LET given == {l.ans[i] : i \in 1..Len(l.ans)}
  IN (IF {x[1] : x \in given} = {x[1] : x \in s.ans} /\ Cardinality(given) = Len(l.ans) THEN {} ELSE {"who-is-answered"})
     \cup (IF \A x \in given, y \in s.ans : x[1] = y[1] => x[2] = y[2] THEN {} ELSE {"answer"})
     \cup (IF l.calls = s.st.calls THEN {} ELSE {"fetches"})
     \cup (IF \A r \in Requests : (l.open[r] = 1) = (s.st.wait[r] # None) THEN {} ELSE {"waiting"})

Run(lines) ==
  FoldLeft(LAMBDA acc, l :
             IF acc.bad # {} THEN acc
             ELSE IF "broken" \in DOMAIN l THEN [acc EXCEPT !.k = @ + 1, !.bad = {"broken"}]
             ELSE LET s == IF l.at = 0 THEN [st |-> Start, ans |-> {}] ELSE Step(acc.st[l.at], l.a)
                  IN [k |-> acc.k + 1, st |-> Append(SubSeq(acc.st, 1, l.at), s.st), bad |-> Judge(s, l)],
           [k |-> 0, st |-> <<>>, bad |-> {}], lines)

Verdict(f) ==
  LET r == Run(ndJsonDeserialize(IOEnv.TRACES \o "/" \o ToString(f) \o ".ndjson"))
  IN IF r.bad = {} THEN <<>> ELSE <<r.k, r.bad>>

Init == file \in 1..N /\ bad = <<"unread">>
Next == bad = <<"unread">> /\ file' = file /\ bad' = Verdict(file)
Conforms == bad = <<>> \/ bad = <<"unread">>
=============================================================================
