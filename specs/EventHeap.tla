------------------------------ MODULE EventHeap ------------------------------
(* The event heap: a queue of events, each at a position that names it until *)
(* it is removed. q lists the live events, oldest first.                     *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

CONSTANT Cap

Taken(q) == {q[i].sl : i \in DOMAIN q}
At(q, sl) == {i \in DOMAIN q : q[i].sl = sl}

Fails(q) == [ok |-> FALSE, ret |-> -1, q |-> q]
Removed(q, i) == [ok |-> TRUE, ret |-> q[i].id, q |-> RemoveAt(q, i)]

(* everything that may happen; id is the event pushed *)
Outcomes(q, a, id) ==
  CASE a.op = "push" -> IF Len(q) = Cap THEN {Fails(q)}
                        ELSE {[ok |-> TRUE, ret |-> id, q |-> Append(q, [sl |-> p, id |-> id])] : p \in (0..Cap - 1) \ Taken(q)}
    [] a.op = "pop" -> IF q = <<>> THEN {Fails(q)} ELSE {Removed(q, 1)}
    [] a.op = "del" -> LET i == IF a.i < 0 THEN Len(q) + a.i + 1 ELSE a.i + 1
                       IN IF i \in DOMAIN q THEN {Removed(q, i)} ELSE {Fails(q)}
    [] a.op = "delat" -> IF At(q, a.sl) = {} THEN {Fails(q)} ELSE {Removed(q, i) : i \in At(q, a.sl)}
    [] a.op = "look" -> {[ok |-> TRUE, ret |-> 0, q |-> q]}

(* the same as a test, which does not enumerate positions *)
Allowed(q, a, id, o) ==
  CASE a.op = "push" /\ Len(q) < Cap ->
         /\ o.ok /\ o.ret = id /\ Len(o.q) = Len(q) + 1 /\ SubSeq(o.q, 1, Len(q)) = q
         /\ LET e == o.q[Len(o.q)] IN e.id = id /\ e.sl \in 0..(Cap - 1) /\ At(q, e.sl) = {}
    [] a.op = "fill" ->
         LET n == IF Cap - a.leave > Len(q) THEN Cap - a.leave - Len(q) ELSE 0
         IN /\ o.ok /\ o.ret = n /\ Len(o.q) = Len(q) + n /\ SubSeq(o.q, 1, Len(q)) = q
            /\ \A k \in 1..n : o.q[Len(q) + k].id = id + k - 1
            /\ Cardinality(Taken(o.q)) = Len(o.q) /\ \A e \in Taken(o.q) : e \in 0..(Cap - 1)
    [] OTHER -> o \in Outcomes(q, a, id)

(* what the queries show *)
Shows(q, len, full, empty, front) ==
  /\ len = Len(q)
  /\ full = (Len(q) = Cap)
  /\ empty = (q = <<>>)
  /\ front = IF q = <<>> THEN -1 ELSE q[1].id
=============================================================================
