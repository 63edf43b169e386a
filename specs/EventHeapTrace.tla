--------------------------- MODULE EventHeapTrace ---------------------------
(* Validates recorded sequences of heap operations; see MarketTrace for the  *)
(* files. A line says which operation, at: how many came before it in its    *)
(* sequence, the outcome, and what changed in the walk over the heap (keep   *)
(* many from the front and tail many from the back are as before, add lies   *)
(* between) and in the events found by position.                             *)
EXTENDS EventHeap, TLC, Json, IOUtils

N == atoi(IOEnv.N)
VARIABLES file, bad

Empty == [q |-> <<>>, next |-> 1, at |-> [p \in 0..699 |-> -1]]

Post(s, l) ==
  LET n == Len(s.q)
      q == SubSeq(s.q, 1, l.keep) \o l.add \o SubSeq(s.q, n - l.tail + 1, n)
  IN [q |-> q,
      next |-> IF l.a.op = "push" THEN s.next + 1
               ELSE IF l.a.op = "fill" THEN s.next + l.ret ELSE s.next,
      at |-> IF l.slots = <<>> THEN s.at
             ELSE [p \in 0..699 |-> LET c == SelectSeq(l.slots, LAMBDA x : x[1] = p)
                                   IN IF c = <<>> THEN s.at[p] ELSE c[1][2]]]

ByPosition(t, l) ==
  \/ Len(t.q) > 30 /\ l.at % 8 # 0
  \/ /\ \A i \in DOMAIN t.q : t.at[t.q[i].sl] = t.q[i].id
     /\ Cardinality({p \in 0..699 : t.at[p] # -1}) = Len(t.q)

Judge(s, l, t) ==
  (IF Allowed(s.q, l.a, s.next, [ok |-> l.ok, ret |-> l.ret, q |-> t.q]) THEN {} ELSE {"outcome"})
  \cup (IF Shows(t.q, l.len, l.full, l.empty, l.front) THEN {} ELSE {"queries"})
  \cup (IF t.at # s.at \/ l.at % 8 = 0 THEN (IF ByPosition(t, l) THEN {} ELSE {"positions"}) ELSE {})
  \cup (IF "touched" \in DOMAIN l /\ l.touched THEN {"changed-by-failure"} ELSE {})

Run(lines) ==
  FoldLeft(LAMBDA acc, l :
             IF acc.bad # {} THEN acc
             ELSE IF "broken" \in DOMAIN l THEN [acc EXCEPT !.k = @ + 1, !.bad = {"broken"}]
             ELSE LET s == IF l.at = 0 THEN Empty ELSE acc.st[l.at]
                      t == Post(s, l)
                  IN [k |-> acc.k + 1, st |-> Append(SubSeq(acc.st, 1, l.at), t), bad |-> Judge(s, l, t)],
           [k |-> 0, st |-> <<>>, bad |-> {}], lines)

Verdict(f) ==
  LET r == Run(ndJsonDeserialize(IOEnv.TRACES \o "/" \o ToString(f) \o ".ndjson"))
  IN IF r.bad = {} THEN <<>> ELSE <<r.k, r.bad>>

Init == file \in 1..N /\ bad = <<"unread">>
Next == bad = <<"unread">> /\ file' = file /\ bad' = Verdict(file)
Conforms == bad = <<>> \/ bad = <<"unread">>
=============================================================================
