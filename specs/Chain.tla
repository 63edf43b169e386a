------------------------------- MODULE Chain --------------------------------
(* The client's view of the chain: which write of an account is the one to   *)
(* use, after messages about slots and writes in any order.                  *)
(*                                                                           *)
(* Messages: bank (slot s is being processed on top of p), conf and root     *)
(* (s is confirmed, rooted), slot (any of these in one), dead and shred      *)
(* (nothing to learn), write and snap (data of one or all accounts in s),    *)
(* rpc (data fetched in s; s then counts as following the best chain if it   *)
(* is ahead of it, until its true parent is heard of), alt (fetched only if  *)
(* there is no data yet), gone (fetched, but there is no such account).      *)
(*                                                                           *)
(* State: root, the newest rooted slot; best, the highest slot with a known  *)
(* parent; slots, what is known of the slots from root on; writes, each with *)
(* ok FALSE once it turned out to be on an abandoned fork. Nothing is ever   *)
(* forgotten here but what can no longer be told apart: older slots. odd     *)
(* says that messages contradicted each other, or a root beyond the head of  *)
(* the chain left open which slots it builds on; nothing is required then.   *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANT Accounts

None == -1
Processed == 0
Confirmed == 1
Rooted == 2

Start == [root |-> 0, best |-> 0, slots |-> [s \in {} |-> 0], writes |-> {}, odd |-> FALSE]

(* The best slot and what it builds on, as far as known *)
RECURSIVE Down(_, _)
Down(slots, s) ==
  IF s \notin DOMAIN slots THEN {}
  ELSE {s} \cup (IF slots[s].p = None THEN {} ELSE Down(slots, slots[s].p))
Chain(st) == Down(st.slots, st.best)

Live(st, w) ==
  /\ w.ok
  /\ IF w.s \in DOMAIN st.slots
     THEN st.slots[w.s].st = Rooted \/ w.s > st.best \/ w.s \in Chain(st)
     ELSE w.s <= st.root

Newest(ws) == CHOOSE w \in ws : \A v \in ws : v.s < w.s \/ (v.s = w.s /\ v.n <= w.n)

Answer(st, k) ==
  LET ws == {w \in st.writes : w.k = k /\ Live(st, w)}
  IN IF ws = {} THEN <<-1, -1>> ELSE LET w == Newest(ws) IN <<w.s, w.n>>

(* Hearing of slot s: its parent p if known, guess if only presumed          *)
Hear(st, s, p, status, guess) ==
  IF s < st.root THEN st
  ELSE
    LET known == s \in DOMAIN st.slots
        o == st.slots[s]
        new == IF ~known THEN [p |-> p, st |-> status, g |-> guess]
               ELSE [p |-> IF p = None THEN o.p ELSE p, g |-> IF p = None THEN o.g ELSE guess,
                     st |-> IF status > o.st THEN status ELSE o.st]
        slots == [x \in DOMAIN st.slots \cup {s} |-> IF x = s THEN new ELSE st.slots[x]]
        best == IF p # None /\ s > st.best THEN s ELSE st.best
        t == [st EXCEPT !.slots = slots, !.best = best,
                        !.odd = @ \/ (known /\ p # None /\ o.p \notin {None, p} /\ ~o.g)]
    IN IF status # Rooted \/ s <= st.root THEN t
       ELSE \* what was not on the chain by now never will be
            LET lost(w) == w.s <= s /\ w.s \in DOMAIN slots /\ slots[w.s].st # Rooted /\ w.s \notin Chain(t)
            IN [t EXCEPT !.root = s,
                         !.odd = @ \/ (\E w \in t.writes : lost(w) /\ w.s > best),
                         !.writes = {[w EXCEPT !.ok = @ /\ ~lost(w)] : w \in @},
                         !.slots = [x \in {x \in DOMAIN slots : x >= s} |-> slots[x]]]

Write(st, s, k, n) == [st EXCEPT !.writes = @ \cup {[k |-> k, s |-> s, n |-> n, ok |-> TRUE]}]

Fetched(st, s, k, n) == Write(IF s > st.best THEN Hear(st, s, st.best, Processed, TRUE) ELSE st, s, k, n)

Step(st, a, n) ==
  CASE a.op = "bank" -> Hear(st, a.s, a.p, Processed, FALSE)
    [] a.op = "conf" -> Hear(st, a.s, None, Confirmed, FALSE)
    [] a.op = "root" -> Hear(st, a.s, None, Rooted, FALSE)
    [] a.op = "slot" -> Hear(st, a.s, a.p, a.st, FALSE)
    [] a.op = "write" -> Write(st, a.s, a.k, n)
    [] a.op = "snap" -> [st EXCEPT !.writes = @ \cup {[k |-> k, s |-> a.s, n |-> n, ok |-> TRUE] : k \in Accounts}]
    [] a.op = "rpc" -> Fetched(st, a.s, a.k, n)
    [] a.op = "alt" -> IF Answer(st, a.k) = <<-1, -1>> THEN Fetched(st, a.s, a.k, n) ELSE st
    [] OTHER -> st
=============================================================================
