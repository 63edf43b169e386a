------------------------------ MODULE Snapshot ------------------------------
(* The source of snapshots of the Rust client: once the node has passed a    *)
(* slot, and then every so often, it fetches all accounts of the program and *)
(* the oracles it was given, these in portions, some at a time, and hands on *)
(* everything as one message.                                                *)
(*                                                                           *)
(* Operations: slot (the node's final slot reaches s), wait (t seconds       *)
(* pass), write (account k of the node becomes v, 0 for none), accounts (the *)
(* node answers the request for the program's accounts: 1; 0 it fails; 2 it  *)
(* does not tell the slot), oracles (it answers the i-th request under way   *)
(* for oracles, or fails).                                                   *)
(*                                                                           *)
(* State: node, slot, now; at, what the source does: idle, accounts, or      *)
(* oracles; begun, how many snapshots were begun; todo, portions not asked   *)
(* for yet; open, the ones asked for; got, accounts so far; bad, whether a   *)
(* request failed; since, when something last ended.                         *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Own, Oracles

Start(c) == [cfg |-> c, node |-> [k \in Own \cup Oracles |-> 0], slot |-> 0, now |-> 0, at |-> "idle", begun |-> 0,
             todo |-> <<>>, open |-> <<>>, got |-> {}, bad |-> FALSE, since |-> 0]

Listed(c) == [i \in 1..c.n |-> 10 + i]
Least(a, b) == IF a < b THEN a ELSE b
RECURSIVE Portions(_, _)
Portions(s, n) == IF s = <<>> THEN <<>> ELSE <<SubSeq(s, 1, Least(n, Len(s)))>> \o Portions(SubSeq(s, n + 1, Len(s)), n)

Without(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))

(* More is asked for as long as not too much is under way; when nothing is   *)
(* left it is over, and goes out if nothing went wrong.                      *)
Go(st) ==
  LET room == Least(st.cfg.par - Len(st.open), Len(st.todo))
      s == [st EXCEPT !.open = @ \o SubSeq(st.todo, 1, room), !.todo = SubSeq(@, room + 1, Len(@))]
  IN IF s.open = <<>> THEN [st |-> [s EXCEPT !.at = "idle", !.since = st.now], msgs |-> IF s.bad THEN <<>> ELSE <<s.got>>]
     ELSE [st |-> s, msgs |-> <<>>]
Still(st) == [st |-> st, msgs |-> <<>>]

There(st, ks) == {<<k, st.node[k], st.slot>> : k \in {x \in ks : st.node[x] # 0}}

Act(st, a) ==
  CASE a.op = "slot" -> Still([st EXCEPT !.slot = IF a.s > @ THEN a.s ELSE @])
    [] a.op = "wait" -> Still([st EXCEPT !.now = @ + a.t])
    [] a.op = "write" -> Still([st EXCEPT !.node[a.k] = a.v])
    [] a.op = "accounts" ->
         IF st.at # "accounts" THEN Still(st)
         ELSE IF a.v # 1 THEN Still([st EXCEPT !.at = "idle", !.since = st.now])
         ELSE Go([st EXCEPT !.at = "oracles", !.got = There(st, Own), !.bad = FALSE, !.open = <<>>,
                            !.todo = Portions(Listed(st.cfg), st.cfg.per)])
    [] a.op = "oracles" ->
         IF st.at # "oracles" \/ a.i > Len(st.open) THEN Still(st)
         ELSE LET ks == {st.open[a.i][j] : j \in 1..Len(st.open[a.i])}
              IN Go([st EXCEPT !.open = Without(@, a.i), !.bad = @ \/ a.v = 0, !.got = @ \cup There(st, ks)])
    [] OTHER -> Still(st)

(* A snapshot may begin once the slot is passed, as often as the time says,  *)
(* and has to if nothing else is going on for that long.                     *)
MayBegin(st) == st.at = "idle" /\ st.slot > st.cfg.min /\ st.begun <= st.now \div st.cfg.every
MustBegin(st, a) == st.at = "idle" /\ st.slot > st.cfg.min /\ a.op = "wait" /\ a.t >= st.cfg.every + 2
Begin(st) == [st EXCEPT !.at = "accounts", !.begun = @ + 1]
=============================================================================
