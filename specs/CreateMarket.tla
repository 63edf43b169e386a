---------------------------- MODULE CreateMarket ----------------------------
(* Which markets can be created, and what a new market looks like. A request *)
(* r has lot sizes qls, bls, fees mf, tf (millionths), expiry exp, oracles   *)
(* oa, ob (0 none; 1,2 stub; 3,4 Pyth; 5,6 Switchboard 2; 7,8 Switchboard 1; *)
(* 9,10 Raydium; from 11 nothing known), length nm of the name, accepted     *)
(* staleness st (-1 any) and uncertainty cn / 16, whether there are admins   *)
(* oo, ce, cm, the decimals bd, qd of the mints, and odd: what is wrong with *)
(* the accounts (0 nothing).                                                 *)
EXTENDS Integers

Now == 1000000
Scale == 1000000

Abs(x) == IF x < 0 THEN -x ELSE x

Fees(r) ==
  /\ Abs(r.mf) <= Scale
  /\ r.tf \in 0..Scale
  /\ r.mf < 0 => Abs(r.mf) <= r.tf
Expiry(r) == r.exp = 0 \/ r.exp > Now
Lots(r) == r.qls > 0 /\ r.bls > 0
Kind(o) == (o + 1) \div 2
Oracles(r) ==
  /\ r.oa <= 10 /\ r.ob <= 10
  /\ r.ob # 0 => (r.oa # 0 /\ r.oa # r.ob /\ Kind(r.oa) = Kind(r.ob))
Name(r) == r.nm <= 16
Accounts(r) == r.odd = 0

Sound(r) == Fees(r) /\ Expiry(r) /\ Lots(r) /\ Oracles(r) /\ Name(r) /\ Accounts(r)

(* people 6 to 9 are the admins *)
Made(r) ==
  [typed |-> TRUE, qls |-> r.qls, bls |-> r.bls, mf |-> r.mf, tf |-> r.tf, exp |-> r.exp, reg |-> Now,
   bd |-> r.bd, qd |-> r.qd, fee |-> 6, oo |-> 7 * r.oo, ce |-> 8 * r.ce, cm |-> 9 * r.cm,
   oa |-> r.oa, ob |-> r.ob, cn |-> r.cn, st |-> r.st, name |-> TRUE, accounts |-> TRUE, tokens |-> TRUE,
   counters |-> TRUE, book |-> TRUE, heap |-> TRUE, told |-> TRUE, logged |-> <<r.bd, r.qd, r.bls, r.qls>>]
=============================================================================
