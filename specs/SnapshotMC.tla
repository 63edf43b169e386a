----------------------------- MODULE SnapshotMC -----------------------------
(* All ways the first snapshots can go.                                      *)
EXTENDS Snapshot, TLC, SequencesExt, Json, IOUtils

VARIABLES st, n, last, msgs, seen

Depth == atoi(IOEnv.DEPTH)
C == [min |-> 5, per |-> 2, par |-> 2, n |-> 3, every |-> 10]
Sources == <<C, [C EXCEPT !.per = 1], [C EXCEPT !.n = 0], [C EXCEPT !.per = 1, !.par = 1], [C EXCEPT !.per = 5, !.min = 0]>>

Ops == {[op |-> "slot", s |-> s] : s \in {5, 6}} \cup {[op |-> "wait", t |-> t] : t \in {2, 5, 12}}
       \cup {[op |-> "write", k |-> k, v |-> 2] : k \in {1, 12}} \cup {[op |-> "write", k |-> 11, v |-> 0]}
       \cup {[op |-> "accounts", v |-> v] : v \in 0..2} \cup {[op |-> "oracles", i |-> i, v |-> v] : i \in 1..2, v \in 0..1}

W(k, v) == [op |-> "write", k |-> k, v |-> v]
S(s) == [op |-> "slot", s |-> s]
T(t) == [op |-> "wait", t |-> t]
A == [op |-> "accounts", v |-> 1]
O(i) == [op |-> "oracles", i |-> i, v |-> 1]
Some == <<W(1, 1), W(11, 1), W(12, 1)>>
Before == <<Some, Some \o <<S(7), T(2)>>, Some \o <<S(7), T(2), A>>, Some \o <<S(7), T(2), A, S(9), O(2)>>,
            Some \o <<S(7), T(2), A, O(1), O(1), O(1), T(25)>>>>
Setups == [i \in 1..(Len(Sources) * Len(Before)) |->
             [id |-> i, cfg |-> Sources[((i - 1) % Len(Sources)) + 1], prefix |-> Before[((i - 1) \div Len(Sources)) + 1]]]
ASSUME IOEnv.OUT = "" \/ JsonSerialize(IOEnv.OUT, [acts |-> SetToSeq(Ops), setups |-> Setups])

(* seen: what each account was, in which slot, since the snapshot began      *)
Now(s) == {<<k, s.node[k], s.slot>> : k \in Own \cup Oracles}
Init == /\ st \in {[Start(Sources[i]) EXCEPT !.node[1] = 1, !.node[11] = 1, !.node[12] = 1] : i \in 1..Len(Sources)}
        /\ n = 0 /\ last = [op |-> "look"] /\ msgs = <<>> /\ seen = {}
Next ==
  /\ n < Depth /\ n' = n + 1
  /\ \E a \in Ops :
       LET s == Act(st, a)
       IN /\ last' = a /\ msgs' = s.msgs
          /\ \E b \in BOOLEAN :
               /\ b => MayBegin(s.st)
               /\ ~b => ~(MustBegin(s.st, a) /\ MayBegin(s.st))
               /\ st' = IF b THEN Begin(s.st) ELSE s.st
               /\ seen' = IF b THEN Now(s.st) ELSE seen \cup Now(s.st)

(* A message holds each account there was, once, as it was in the slot it    *)
(* says, all within the time the snapshot took                               *)
True1 == [][\A i \in 1..Len(msgs') :
             /\ msgs'[i] \subseteq (seen \cup Now(st))
             /\ \A x, y \in msgs'[i] : x[1] = y[1] => x = y]_<<st, n, last, msgs, seen>>
(* and nothing that was there throughout is missing from it                  *)
Complete == [][\A i \in 1..Len(msgs'), k \in Own \cup {10 + j : j \in 1..st.cfg.n} :
                (\A x \in seen : x[1] = k => x[2] # 0) => \E x \in msgs'[i] : x[1] = k]_<<st, n, last, msgs, seen>>
(* Nothing is handed on unless everything was answered                       *)
OnlyWhole == [][msgs' # <<>> => st.at # "idle" /\ last'.v = 1 /\ Len(msgs') = 1]_<<st, n, last, msgs, seen>>
Late == st.begun > 0 => st.slot > st.cfg.min
Spare == Len(st.open) <= st.cfg.par /\ \A i \in 1..Len(st.open) : Len(st.open[i]) <= st.cfg.per
Seldom == st.begun <= st.now \div st.cfg.every + 1

View == <<st, n, seen>>
=============================================================================
