------------------------------ MODULE ChainMC -------------------------------
(* All sequences of messages about a few slots. tree gives each slot's true  *)
(* parent; messages never contradict it.                                     *)
EXTENDS Chain, TLC, SequencesExt, Json, IOUtils

VARIABLES st, n, tree, last

Slots == 1..4
Trees == {t \in [Slots -> 0..3] : \A s \in Slots : t[s] < s}

Msgs ==
  {[op |-> "bank", s |-> s, p |-> p] : s \in Slots, p \in 0..3}
  \cup {[op |-> o, s |-> s] : o \in {"conf", "root"}, s \in Slots}
  \cup {[op |-> "slot", s |-> s, p |-> p, st |-> Rooted] : s \in Slots, p \in 0..3}
  \cup {[op |-> o, s |-> s, k |-> 1] : o \in {"write", "rpc"}, s \in Slots}

Fits(t, a) == "p" \in DOMAIN a => a.p = t[a.s]

(* What the implementation is put through: a tree of slots; the messages     *)
(* about it.                                                                 *)
Shown == {<<0, 1, 2, 3>>, <<0, 1, 1, 2>>, <<0, 1, 1, 3>>, <<0, 0, 1, 2>>}
(* fetch: through the fetcher that keeps it current                          *)
Fetching == IOEnv.FOCUS = "fetch"
Mine == IF IOEnv.FOCUS = "" THEN <<0, 1, 2, 3>> ELSE IF Fetching THEN <<0, 1, 1, 3>> ELSE <<0, 1, 1, atoi(IOEnv.FOCUS)>>
Fetches == {[op |-> o, s |-> s, k |-> k] : o \in {"alt", "gone"}, s \in {2, 3}, k \in {1, 2}}
Acts == SetToSeq({a \in Msgs : Fits(Mine, a)} \cup IF Fetching THEN Fetches ELSE {})
Bank(t, s) == [op |-> "bank", s |-> s, p |-> t[s]]
W(s) == [op |-> "write", s |-> s, k |-> 1]
Setups == <<[id |-> 1, prefix |-> <<>>],
            [id |-> 2, prefix |-> <<W(1), Bank(Mine, 1), [op |-> "root", s |-> 1], Bank(Mine, 2), W(2)>>],
            [id |-> 3, prefix |-> <<Bank(Mine, 1), W(1), Bank(Mine, 2), W(2), Bank(Mine, 3), W(3)>>]>>
ASSUME IOEnv.OUT = "" \/ JsonSerialize(IOEnv.OUT, [acts |-> Acts, setups |-> Setups])

Depth == atoi(IOEnv.DEPTH)

Init == st = Start /\ n = 1 /\ tree \in (IF Depth > 4 \/ Fetching THEN {Mine} ELSE Trees) /\ last = [op |-> "look"]
Next == /\ n <= Depth
        /\ \E a \in Msgs \cup (IF Fetching THEN {f \in Fetches : f.k = 1} ELSE {}) : Fits(tree, a) /\ st' = Step(st, a, n) /\ last' = a
        /\ n' = n + 1
        /\ UNCHANGED tree

A == Answer(st, 1)
RECURSIVE Anc(_)
Anc(s) == {s} \cup (IF s = 0 THEN {} ELSE Anc(tree[s]))
Guessed == \E s \in DOMAIN st.slots : st.slots[s].g

(* Once it is known how everything hangs together, the answer is never from  *)
(* a fork that the best chain left, unless that fork was rooted or its slot  *)
(* is forgotten.                                                             *)
NoAbandoned ==
  (~Guessed /\ A[1] \in DOMAIN st.slots /\ A[1] < st.best /\ st.best \in DOMAIN st.slots)
     => A[1] \in Anc(st.best) \/ st.slots[A[1]].st = Rooted
(* With every slot heard of, it is the newest write of the best chain        *)
Complete ==
  (~Guessed /\ st.root = 0 /\ DOMAIN st.slots = 1..st.best /\ \A s \in DOMAIN st.slots : st.slots[s].p # None)
     => LET ws == {w \in st.writes : w.s \in Anc(st.best)} IN A = IF ws = {} THEN <<-1, -1>> ELSE LET w == Newest(ws) IN <<w.s, w.n>>
Bounds == \A s \in DOMAIN st.slots : s >= st.root

(* A new root on the best chain does not change the answer, as long as every *)
(* write is for a slot that was heard of.                                    *)
Stable ==
  [][(last'.op \in {"root", "slot"} /\ st'.root # st.root /\ st.best = st'.best /\ last'.s \in Chain(st)
      /\ \A w \in st.writes : w.s \in DOMAIN st.slots \/ w.s <= st.root)
       => Answer(st', 1) = A]_<<st, n, tree, last>>
(* Messages about slots before the root change nothing                       *)
Past == [][(last'.op \in {"bank", "conf", "root", "slot"} /\ last'.s < st.root) => st' = st]_<<st, n, tree, last>>
(* Data that is already there is not fetched                                 *)
Patient == [][(last'.op = "alt" /\ A # <<-1, -1>>) \/ last'.op = "gone" => st' = st]_<<st, n, tree, last>>

View == <<st, n, tree>>
=============================================================================
