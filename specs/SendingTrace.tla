---------------------------- MODULE SendingTrace ----------------------------
(* Validates recorded sequences of transactions sent; see MarketTrace for    *)
(* the files.                                                                *)
EXTENDS Sending, TLC, SequencesExt, Json, IOUtils

N == atoi(IOEnv.N)
VARIABLES file, bad

Set(s) == {s[i] : i \in 1..Len(s)}
Way(l, q) ==
  IF l.at # q.at THEN {"stage"}
  ELSE CASE q.at = "send" ->
              (IF l.tx.pay = q.tx.pay THEN {} ELSE {"payer"})
              \cup (IF l.tx.ixs = q.tx.ixs THEN {} ELSE {"instructions"})
              \cup (IF l.tx.price = q.tx.price THEN {} ELSE {"price"})
              \cup (IF Set(l.tx.signed) = q.tx.signed THEN {} ELSE {"signatures"})
              \cup (IF l.tx.hash = q.tx.hash THEN {} ELSE {"hash"})
              \cup (IF l.tx.alts = q.tx.alts THEN {} ELSE {"tables"})
         [] q.at = "confirm" ->
              (IF l.sig = q.sig /\ l.hash = q.hash /\ l.h = q.h THEN {} ELSE {"confirmed"})
              \cup (IF l.com = q.com THEN {} ELSE {"commitment"})
         [] OTHER -> {}

Judge(s, l) ==
  LET given == Set(l.ans)
  IN (IF {<<x[1], x[2]>> : x \in given} = {<<x[1], x[2]>> : x \in s.ans} /\ Cardinality(given) = Len(l.ans) THEN {} ELSE {"outcome"})
     \cup (IF \A x \in given, y \in s.ans : x[1] = y[1] => y[3] = 0 \/ x[3] = y[3] THEN {} ELSE {"signature"})
     \cup (IF l.told = s.st.told THEN {} ELSE {"told"})
     \cup UNION {Way(l.req[r], s.st.req[r]) : r \in Requests}

Run(lines) ==
  FoldLeft(LAMBDA acc, l :
             IF acc.bad # {} THEN acc
             ELSE IF "broken" \in DOMAIN l THEN [acc EXCEPT !.k = @ + 1, !.bad = {"broken"}]
             ELSE LET s == IF l.at = 0 THEN Still(Start(l.a.cfg)) ELSE Step(acc.st[l.at], l.a)
                  IN [k |-> acc.k + 1, st |-> Append(SubSeq(acc.st, 1, l.at), s.st), bad |-> Judge(s, l)],
           [k |-> 0, st |-> <<>>, bad |-> {}], lines)

Verdict(f) ==
  LET r == Run(ndJsonDeserialize(IOEnv.TRACES \o "/" \o ToString(f) \o ".ndjson"))
  IN IF r.bad = {} THEN <<>> ELSE <<r.k, r.bad>>

Init == file \in 1..N /\ bad = <<"unread">>
Next == bad = <<"unread">> /\ file' = file /\ bad' = Verdict(file)
Conforms == bad = <<>> \/ bad = <<"unread">>
=============================================================================
