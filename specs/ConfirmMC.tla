----------------------------- MODULE ConfirmMC ------------------------------
(* Everything a node can answer, in any order.                               *)
EXTENDS Confirm, TLC, SequencesExt, Json, IOUtils

VARIABLES st, n, told

Depth == atoi(IOEnv.DEPTH)
Statuses == {0, 1, 2, 3, -1, -2, -3, 9}
Answers(op) == CASE op = "take" -> {0, 1} [] op = "recent" -> {1, 9} [] op = "poll" -> Statuses [] op = "valid" -> {0, 1, 9}

Init == /\ st \in {Start(c, k) : c \in 1..3, k \in 0..1} /\ n = 0 /\ told = <<>>
Next == /\ st.at # "over" /\ n < Depth /\ n' = n + 1
        /\ \E v \in Answers(st.at) : st' = Step(st, st.at, v) /\ told' = Append(told, <<st.at, v>>)

Heard == {told[i] : i \in 1..Len(told)}
(* Success and failure are what the node said, at the commitment wanted      *)
Honest == /\ st.out = "done" => \E v \in st.com..3 : <<"poll", v>> = told[Len(told)] /\ st.slot # 0
          /\ (st.out = "failed" /\ <<"take", 0>> \notin Heard) => \E v \in st.com..3 : <<"poll", -v>> = told[Len(told)]
(* Nothing less than that ends the waiting, while there is hope              *)
Patient == st.out = "unknown" => told[Len(told)] \in {<<"recent", 9>>, <<"poll", 9>>, <<"valid", 0>>, <<"valid", 9>>}
Prompt == \A i \in 1..Len(told) : (told[i][1] = "poll" /\ Abs(told[i][2]) \in st.com..3) => i = Len(told)
(* A status is asked for before hope is given up                             *)
Asks == st.valids <= st.polls /\ st.polls <= st.valids + 1

Rs == {<<s, v>> : s \in Statuses, v \in {0, 1, 9}}
Scripts == {<<>>} \cup {<<r>> : r \in Rs} \cup {<<<<s, 1>>, r>> : s \in {0, 1, 2, -1}, r \in Rs}
           \cup {<<<<0, 1>>, <<1, 1>>, <<2, 1>>, r>> : r \in Rs}
Cases == {[op |-> "send", com |-> c, nonce |-> k, take |-> t, recent |-> 1, polls |-> p] : c \in 1..3, k \in 0..1, t \in {1}, p \in Scripts}
         \cup {[op |-> "send", com |-> c, nonce |-> k, take |-> t, recent |-> h, polls |-> <<<<0, 1>>>>] : c \in 1..3, k \in 0..1, t \in 0..1, h \in {1, 9}}
         \cup {[op |-> "full", room |-> r, sends |-> s, shut |-> x] : r \in 1..3, s \in 0..5, x \in 0..1}
ASSUME IOEnv.OUT = "" \/ JsonSerialize(IOEnv.OUT, [acts |-> SetToSeq(Cases), setups |-> <<[id |-> 1]>>])
=============================================================================
