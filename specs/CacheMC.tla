------------------------------ MODULE CacheMC -------------------------------
(* All sequences of operations on the remembering fetcher: two requests,     *)
(* three accounts of two kinds, two values.                                  *)
EXTENDS Cache, TLC, SequencesExt, Json, IOUtils

VARIABLES st, n, last, ans, since

Depth == atoi(IOEnv.DEPTH)

Ops ==
  {[op |-> "one", r |-> r, k |-> k] : r \in Requests, k \in {1, 3}}
  \cup {[op |-> "all", r |-> r, c |-> c] : r \in Requests, c \in Kinds}
  \cup {[op |-> o, k |-> k] : o \in {"answer", "fail"}, k \in {1, 3}}
  \cup {[op |-> o, c |-> c] : o \in {"answer", "fail"}, c \in Kinds}
  \cup {[op |-> "write", k |-> k, v |-> v] : k \in {1, 2}, v \in {0, 2}}
  \cup {[op |-> "clear"]}
  \cup {[op |-> "drop", r |-> r] : r \in Requests}

(* What the implementation is put through *)
W(k, v) == [op |-> "write", k |-> k, v |-> v]
One(r, k) == [op |-> "one", r |-> r, k |-> k]
All(r, c) == [op |-> "all", r |-> r, c |-> c]
Ans(k) == [op |-> "answer", k |-> k]
AnsAll(c) == [op |-> "answer", c |-> c]
Some == <<W(1, 1), W(2, 1), W(3, 1)>>
Setups == <<[id |-> 1, prefix |-> Some],
            [id |-> 2, prefix |-> Some \o <<One(1, 1), One(2, 1)>>],
            [id |-> 3, prefix |-> Some \o <<One(1, 1), Ans(1), W(1, 2), All(1, 1)>>],
            [id |-> 4, prefix |-> Some \o <<All(1, 1), AnsAll(1), W(1, 3), W(2, 3), One(1, 3)>>],
            [id |-> 5, prefix |-> Some \o <<One(1, 1), All(2, 1), [op |-> "clear"]>>]>>
ASSUME IOEnv.OUT = "" \/ JsonSerialize(IOEnv.OUT, [acts |-> SetToSeq(Ops), setups |-> Setups])

(* since: the values each account had since everything was last forgotten    *)
Init == /\ st = [Start EXCEPT !.node = [k \in Accounts |-> 1]]
        /\ n = 0 /\ last = [op |-> "look"] /\ ans = {} /\ since = [k \in Accounts |-> {1}]
Next ==
  /\ n < Depth /\ n' = n + 1
  /\ \E a \in Ops :
       LET s == Step(st, a)
       IN /\ st' = s.st /\ ans' = s.ans /\ last' = a
          /\ since' = [k \in Accounts |-> IF a.op = "clear" THEN {st.node[k]} ELSE since[k] \cup {s.st.node[k]}]

(* Nothing remembered is older than the last time everything was forgotten   *)
Recent == \A k \in Accounts : st.kept[k] # 0 => st.kept[k] \in since[k]
(* The accounts of a remembered list are remembered                          *)
ListsKept == \A c \in Kinds : st.lists[c] # None => \A k \in st.lists[c][1] : st.kept[k] # 0 /\ Kind[k] = c
(* Whoever waits, waits for a fetch under way                                *)
Awaited == \A r \in Requests : st.wait[r] # None => st.wait[r] \in st.busy
(* The node is asked only for what is not remembered, and once at a time     *)
Sparing == [][st'.calls # st.calls =>
                /\ st'.calls = st.calls + 1 /\ last'.op \in {"one", "all"}
                /\ Cardinality(st'.busy) = Cardinality(st.busy) + 1
                /\ last'.op = "one" => st.kept[last'.k] = 0]_<<st, n, last, ans, since>>
(* A failure is not remembered: afterwards the node is asked again           *)
Forgiving == [][last'.op = "fail" => st'.kept = st.kept /\ st'.lists = st.lists]_<<st, n, last, ans, since>>
(* Everybody who waited for the same thing is told the same, then            *)
Told1 == [][last'.op \in {"answer", "fail"} =>
              /\ Cardinality({x[2] : x \in ans'}) <= 1
              /\ {x[1] : x \in ans'} = {r \in Requests : st.wait[r] # None /\ st'.wait[r] = None}]_<<st, n, last, ans, since>>
(* and what is told is what the node holds                                   *)
True1 == [][last'.op = "answer" /\ "k" \in DOMAIN last' =>
              \A x \in ans' : x[2] = IF st.node[last'.k] = 0 THEN Failure ELSE <<st.node[last'.k]>>]_<<st, n, last, ans, since>>

View == <<st, n, since>>
=============================================================================
