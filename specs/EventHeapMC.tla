----------------------------- MODULE EventHeapMC -----------------------------
(* All behaviours of a small heap, with the order of events as a history:    *)
(* out holds what left by pop, gone what was removed by position.            *)
EXTENDS EventHeap, TLC, Json, IOUtils

VARIABLES q, next, out, gone, last

Ops == {[op |-> "push"], [op |-> "pop"]} \cup {[op |-> "del", i |-> i] : i \in {0, 1, -1}}
       \cup {[op |-> "delat", sl |-> p] : p \in 0..Cap}

(* what the implementation is put through *)
Acts == <<[op |-> "push"], [op |-> "pop"], [op |-> "del", i |-> 0], [op |-> "del", i |-> 1], [op |-> "del", i |-> -1],
          [op |-> "delat", sl |-> 2], [op |-> "delat", sl |-> 600]>>
Setups == <<[id |-> "empty", prefix |-> <<>>], [id |-> "almost full", prefix |-> <<[op |-> "fill", leave |-> 2]>>],
            [id |-> "churned", prefix |-> <<[op |-> "fill", leave |-> 595], [op |-> "del", i |-> 1], [op |-> "del", i |-> 2],
                                            [op |-> "pop"], [op |-> "push"]>>]>>
ASSUME JsonSerialize(IOEnv.OUT, [acts |-> Acts, setups |-> Setups])

Limit == atoi(IOEnv.DEPTH)

Init == q = <<>> /\ next = 1 /\ out = <<>> /\ gone = {} /\ last = [ok |-> TRUE, a |-> [op |-> "look"]]
Next ==
  /\ next <= Limit
  /\ \E a \in Ops : \E o \in Outcomes(q, a, next) :
       /\ q' = o.q
       /\ next' = IF a.op = "push" /\ o.ok THEN next + 1 ELSE next
       /\ out' = IF a.op = "pop" /\ o.ok THEN Append(out, o.ret) ELSE out
       /\ gone' = IF a.op \in {"del", "delat"} /\ o.ok THEN gone \cup {o.ret} ELSE gone
       /\ last' = [ok |-> o.ok, a |-> a]
       /\ Assert(Allowed(q, a, next, o), <<"Allowed is narrower", q, a, o>>)
       /\ Assert(\A w \in {[o EXCEPT !.ret = @ + 1], [o EXCEPT !.ok = ~@], [o EXCEPT !.q = <<>>]} \ {o} :
                   w \in Outcomes(q, a, next) \/ ~Allowed(q, a, next, w), <<"Allowed is wider", q, a>>)

Live == {q[i].id : i \in DOMAIN q}
(* nothing lost, duplicated or out of order *)
Exact == /\ Live \cup ToSet(out) \cup gone = 1..(next - 1)
         /\ Len(q) + Len(out) + Cardinality(gone) = next - 1
Ordered == \A i, j \in DOMAIN q : i < j => q[i].id < q[j].id
Oldest == \A i, j \in DOMAIN out : i < j => out[i] < out[j]
NoAlias == Cardinality(Taken(q)) = Len(q)
Usable == Len(q) < Cap => Outcomes(q, [op |-> "push"], next) # {Fails(q)}

View == <<q, next, out, gone>>
=============================================================================
