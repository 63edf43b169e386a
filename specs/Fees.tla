-------------------------------- MODULE Fees --------------------------------
(* Fee arithmetic in millionths, arranged so that every intermediate value of *)
(* TLC's 32 bit integers suffices for amounts below 10^9.                     *)
EXTENDS Integers

LOCAL Mid(a, f) == (a \div 1000) * (f % 1000) + (a % 1000) * (f \div 1000)
                   + ((a % 1000) * (f % 1000)) \div 1000

(* floor(a * f / 10^6) *)
FloorFee(a, f) == (a \div 1000) * (f \div 1000) + Mid(a, f) \div 1000

(* ceil(a * f / 10^6) *)
CeilFee(a, f) ==
  IF Mid(a, f) % 1000 = 0 /\ ((a % 1000) * (f % 1000)) % 1000 = 0
  THEN FloorFee(a, f) ELSE FloorFee(a, f) + 1

LOCAL Abs(x) == IF x < 0 THEN -x ELSE x

TakerFee(m, quote) == CeilFee(quote, m.tf)
(* what a bid locks on top of its price *)
MakerLock(m, quote) == IF m.mf > 0 THEN CeilFee(quote, m.mf) ELSE 0
MakerFee(m, quote) == IF m.mf > 0 THEN FloorFee(quote, m.mf) ELSE 0
MakerRebate(m, quote) == IF m.mf > 0 THEN 0 ELSE FloorFee(quote, Abs(m.mf))

LOCAL Digit(p, D) == << p[1] * 10 + (p[2] * 10) \div D, (p[2] * 10) % D >>

(* floor(q * 10^6 / (10^6 + f)): the part of q that leaves room for fees on it *)
WithoutTakerFee(q, f) ==
  LET D == 1000000 + f
      d0 == << q \div D, q % D >>
  IN Digit(Digit(Digit(Digit(Digit(Digit(d0, D), D), D), D), D), D)[1]

(* ceil(a / b) *)
CeilDiv(a, b) == (a + b - 1) \div b
=============================================================================
