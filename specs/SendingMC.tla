----------------------------- MODULE SendingMC ------------------------------
(* All ways two requests of a client can go, over what they ask for and what *)
(* the client was set up with.                                               *)
EXTENDS Sending, TLC, SequencesExt, Json, IOUtils

VARIABLES st, n, last, ans, net, done

Depth == atoi(IOEnv.DEPTH)

P == [n |-> 2, fee |-> -1, ex |-> 0, alts |-> 0, given |-> 0, com |-> 0]
Asked == {P, [P EXCEPT !.n = 1, !.ex = 2], [P EXCEPT !.fee = 7, !.given = 1], [P EXCEPT !.fee = 0, !.given = 2, !.ex = 1],
          [P EXCEPT !.fee = -2, !.alts = 2, !.com = 2], [P EXCEPT !.n = 3, !.given = 1, !.com = 3]}

C == [fee |-> 0, cb |-> 0, com |-> 0, prov |-> 1, wal |-> 0]
Clients == <<C, [C EXCEPT !.fee = 5, !.cb = 1], [C EXCEPT !.com = 2, !.cb = 2, !.wal = 1], [C EXCEPT !.fee = 5, !.prov = 3, !.wal = 1]>>

Ops == {[op |-> "begin", r |-> r, p |-> p] : r \in Requests, p \in Asked}
       \cup {[op |-> "hash", r |-> r, v |-> v] : r \in Requests, v \in {0, 4}}
       \cup {[op |-> "take", r |-> r, v |-> v] : r \in Requests, v \in {0, 1}}
       \cup {[op |-> "end", r |-> r, v |-> v] : r \in Requests, v \in {"ok", "err", "lost"}}

(* What the implementation is put through: the first request at each of its  *)
(* stages, then everything                                                   *)
Begin(r, p) == [op |-> "begin", r |-> r, p |-> p]
Hash(r) == [op |-> "hash", r |-> r, v |-> 3]
Take(r) == [op |-> "take", r |-> r, v |-> 1]
Before == <<<<>>, <<Begin(1, P)>>, <<Begin(1, P), Begin(2, [P EXCEPT !.ex = 1]), Hash(1)>>,
            <<Begin(1, P), Hash(1), Take(1)>>,
            <<Begin(1, P), Begin(2, [P EXCEPT !.fee = 6]), Hash(2), Hash(1), Take(2), Take(1)>>>>
Setups == [i \in 1..(Len(Clients) * Len(Before)) |->
             [id |-> i, cfg |-> Clients[((i - 1) % Len(Clients)) + 1], prefix |-> Before[((i - 1) \div Len(Clients)) + 1]]]
ASSUME IOEnv.OUT = "" \/ JsonSerialize(IOEnv.OUT, [acts |-> SetToSeq(Ops), setups |-> Setups])

(* net: transactions the node took, by signature; done: what was answered    *)
Init == /\ st \in {Start(Clients[i]) : i \in 1..Len(Clients)}
        /\ n = 0 /\ last = [op |-> "look"] /\ ans = {} /\ net = <<>> /\ done = {}
Next ==
  /\ n < Depth /\ n' = n + 1
  /\ \E a \in Ops :
       LET s == Step(st, a)
       IN /\ st' = s.st /\ ans' = s.ans /\ last' = a
          /\ net' = IF s.st.sigs > st.sigs THEN Append(net, st.req[a.r].tx) ELSE net
          /\ done' = done \cup s.ans

(* Success is said only of what the node took and confirmed, once            *)
Honest == [][\A x \in ans' : x[2] = "done" =>
              /\ last'.op = "end" /\ last'.v = "ok" /\ st.req[x[1]].sig = x[3]
              /\ x[3] \in 1..Len(net) /\ \A y \in done : y[3] # x[3] \/ y[3] = 0]_<<st, n, last, ans, net, done>>
(* A transaction goes out whole: all instructions of one request, in order   *)
Whole == \A i \in 1..Len(net) : net[i].ixs # <<>> /\ \A k \in 1..Len(net[i].ixs) : net[i].ixs[k] = net[i].ixs[1] + k - 1
Signed == \A i \in 1..Len(net) : net[i].pay \in net[i].signed
(* No price is offered unless somebody asked for one                         *)
Priced == \A i \in 1..Len(net) : net[i].price # 0 => net[i].price \in {st.cfg.fee, 7}
(* Whoever wants to know is told of each transaction once, when it is taken  *)
Told == st.told = IF st.cfg.cb = 0 THEN <<>> ELSE [i \in 1..st.sigs |-> i]
(* Confirmed is what was taken, by the hash it was made with                 *)
Same == \A r \in Requests : st.req[r].at = "confirm" =>
          /\ st.req[r].sig \in 1..Len(net)
          /\ st.req[r].h # 0 => st.req[r].hash = net[st.req[r].sig].hash
          /\ st.req[r].com # 0
(* Nobody is answered for another                                            *)
Own == [][\A x \in ans' : x[1] = last'.r /\ \A r \in Requests \ {x[1]} : st'.req[r] = st.req[r]]_<<st, n, last, ans, net, done>>

View == <<st, n, net, done>>
=============================================================================
