------------------------------- MODULE Oracle -------------------------------
(* The price a market takes from its oracles. A source is one account:       *)
(*   k   0 stub, 1 Pyth, 2 Switchboard 2, 3 Switchboard 1, 4 Raydium pool,   *)
(*       5 something else, -1 no such source                                 *)
(*   p, e, d, sl   price and uncertainty are p * 10^e and d * 10^e, known    *)
(*       since slot sl; a pool gives the root of its price as p / 2, and e   *)
(*       is the difference of its decimals                                   *)
(*   tr  whether Pyth trades (otherwise pp, pd, psl is what it last traded   *)
(*       at), whether enough Switchboard 2 answers came in                   *)
(* A question r has sources a and b, the market's decimals bd, qd, lot sizes *)
(* bls, qls, the uncertainty fn / fd and age stale it accepts (-1 any), the  *)
(* slot now, and odd: which of the accounts is not the market's (0 none).    *)
EXTENDS Integers, FiniteSets

Failure == -2
NoPrice == -1
Never == -1

Ten(n) == IF n <= 0 THEN 1 ELSE 10 ^ n

(* What a source says *)
Readable(x) == x.k \in 0..4 /\ (x.k = 2 => x.tr = 1)
Said(x) ==
  CASE x.k = 1 /\ x.tr = 0 -> [p |-> x.pp, d |-> x.pd, sl |-> x.psl, e |-> x.e, div |-> 1]
    [] x.k = 4 -> [p |-> x.p * x.p, d |-> 0, sl |-> Never, e |-> x.e, div |-> 4]
    [] x.k = 0 /\ x.sl = 0 -> [p |-> x.p, d |-> x.d, sl |-> Never, e |-> x.e, div |-> 1]
    [] OTHER -> [p |-> x.p, d |-> x.d, sl |-> x.sl, e |-> x.e, div |-> 1]
Sane(x) == Readable(x) /\ Said(x).p >= 0

Stale(r, x) == r.stale >= 0 /\ Said(x).sl # Never /\ Said(x).sl + r.stale < r.now

(* how far the uncertainty of the price is above what is accepted *)
Excess(r) ==
  LET a == Said(r.a)
  IN IF r.b.k = -1
     THEN a.d * r.fd * a.div - r.fn * a.p
     ELSE LET b == Said(r.b)
          IN IF a.d = 0 /\ b.d = 0 THEN (IF r.fn = 0 THEN 0 ELSE -1)
             ELSE (a.d * b.p * a.d * b.p + b.d * a.p * b.d * a.p) * r.fd * r.fd
                  - r.fn * r.fn * a.p * b.p * a.p * b.p

Frac(r) ==
  LET a == Said(r.a)
      b == IF r.b.k = -1 THEN [p |-> 1, e |-> 0, div |-> 1] ELSE Said(r.b)
      e == a.e - b.e + r.qd - r.bd
  IN [num |-> a.p * b.div * r.bls * Ten(e), den |-> a.div * b.p * r.qls * Ten(-e)]

Lots(r) == Frac(r).num \div Frac(r).den

(* The computation is in binary fractions: with nothing to round it is exact *)
Pow2 == {1, 2, 4, 8, 16, 32, 64, 128}
Exactly(r) ==
  /\ r.a.e = 0 /\ r.fd \in Pow2 /\ r.qd >= r.bd
  /\ r.b.k # -1 => (r.b.e = 0 /\ Said(r.b).p \in Pow2 /\ (r.a.d # 0 => Said(r.a).p \in Pow2))

Silent(r) == Stale(r, r.a) \/ (r.b.k # -1 /\ (Stale(r, r.b) \/ Said(r.b).p = 0))

(* the answers that are right *)
Answers(r) ==
  IF \/ r.a.k # -1 /\ (r.odd = 1 \/ ~Sane(r.a))
     \/ r.b.k # -1 /\ (r.odd = 2 \/ ~Sane(r.b))
  THEN {Failure}
  ELSE IF r.a.k = -1 \/ Silent(r) THEN {NoPrice}
  ELSE LET x == Excess(r)
           f == Frac(r)
           whole == IF f.num % f.den = 0 /\ ~Exactly(r) THEN {Lots(r), Lots(r) - 1} ELSE {Lots(r)}
       IN IF x > 0 THEN {NoPrice}
          ELSE IF x = 0 /\ ~Exactly(r) /\ (r.a.d # 0 \/ (r.b.k # -1 /\ r.b.d # 0)) THEN whole \cup {NoPrice}
          ELSE whole

(* A source that cannot be believed may also be passed over if the other one *)
(* already left the market without a price.                                  *)
Unbelieved(r) == r.b.k # -1 /\ Sane(r.a) /\ r.odd = 0 /\ Stale(r, r.a)
Allowed(r, ret) ==
  \/ ret \in Answers(r)
  \/ Unbelieved(r) /\ ret \in {Failure, NoPrice}
=============================================================================
