------------------------------ MODULE Sending -------------------------------
(* How the TypeScript client sends transactions: several at a time, over a   *)
(* node that gives recent block hashes, takes transactions and tells later   *)
(* what became of them.                                                      *)
(*                                                                           *)
(* Operations: begin (request r, with what it asks for), hash (the node      *)
(* gives hash v to r's call, or no answer for 0), take (the node takes r's   *)
(* transaction, or refuses it for 0), end (what became of it: ok, err, or    *)
(* lost when the node no longer answers).                                    *)
(*                                                                           *)
(* A request: n instructions; fee, the price it offers (-1: the client's, -2 *)
(* none); ex, further signers; alts, lookup tables; given, a block hash it   *)
(* brings along (0 none, 1 with its last height, 2 without); com, the        *)
(* commitment it waits for (0: the client's).                                *)
(*                                                                           *)
(* State: req, what each request is at; sigs, signatures given out; told,    *)
(* the ones the client's owner was told about.                               *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Requests

Idle == [at |-> "idle"]
Start(c) == [cfg |-> c, req |-> [r \in Requests |-> Idle], sigs |-> 0, told |-> <<>>]

Given == 9

(* What the client was set up with, when the request says nothing            *)
Price(c, p) == IF p.fee = -1 THEN c.fee ELSE IF p.fee = -2 THEN 0 ELSE p.fee
Commitment(c, p) == IF p.com # 0 THEN p.com ELSE IF c.com # 0 THEN c.com ELSE c.prov

(* The transaction: its payer is the wallet (0), which signs, as do the      *)
(* further signers (1, 2, ..); instructions keep their order                 *)
Tx(c, r, p, h) ==
  [pay |-> 0, ixs |-> [i \in 1..p.n |-> 10 * r + i], price |-> Price(c, p), signed |-> 0..p.ex,
   hash |-> h, alts |-> [i \in 1..p.alts |-> i]]

(* Each gives the new state and the answers: request, outcome, signature     *)
Still(st) == [st |-> st, ans |-> {}]
Finish(st, r, how, sig) == [st |-> [st EXCEPT !.req[r] = Idle], ans |-> {<<r, how, sig>>}]

Step(st, a) ==
  LET q == st.req[a.r] IN
  CASE a.op = "begin" ->
         IF q.at # "idle" THEN Still(st)
         ELSE Still([st EXCEPT !.req[a.r] =
                IF a.p.given = 0 THEN [at |-> "hash", p |-> a.p]
                ELSE [at |-> "send", p |-> a.p, tx |-> Tx(st.cfg, a.r, a.p, Given), h |-> IF a.p.given = 1 THEN Given ELSE 0]])
    [] a.op = "hash" ->
         IF q.at # "hash" THEN Still(st)
         ELSE IF a.v = 0 THEN Finish(st, a.r, "failed", 0)
         ELSE Still([st EXCEPT !.req[a.r] = [at |-> "send", p |-> q.p, tx |-> Tx(st.cfg, a.r, q.p, a.v), h |-> a.v]])
    [] a.op = "take" ->
         IF q.at # "send" THEN Still(st)
         ELSE IF a.v = 0 THEN Finish(st, a.r, "failed", 0)
         ELSE Still([st EXCEPT !.sigs = @ + 1,
                !.told = IF st.cfg.cb = 0 THEN @ ELSE Append(@, st.sigs + 1),
                !.req[a.r] = [at |-> "confirm", p |-> q.p, sig |-> st.sigs + 1, hash |-> IF q.h = 0 THEN 0 ELSE q.tx.hash,
                              h |-> q.h, com |-> Commitment(st.cfg, q.p)]])
    [] a.op = "end" ->
         IF q.at # "confirm" THEN Still(st)
         ELSE IF a.v = "ok" THEN Finish(st, a.r, "done", q.sig)
         ELSE Finish(st, a.r, "failed", IF a.v = "err" THEN q.sig ELSE 0)
    [] OTHER -> Still(st)
=============================================================================
