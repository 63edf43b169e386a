------------------------------ MODULE OracleMC ------------------------------
(* Questions around every rule of Oracle, one state each.                    *)
EXTENDS Oracle, TLC, Sequences, Json, IOUtils, SequencesExt

VARIABLE r

None == [k |-> -1]
Src(k, p, e, d, sl) == [k |-> k, p |-> p, e |-> e, d |-> d, sl |-> sl, tr |-> 1, pp |-> 3, pd |-> 0, psl |-> 15]
Ask(a, b) == [op |-> "price", odd |-> 0, a |-> a, b |-> b, fn |-> 1, fd |-> 8, stale |-> -1, now |-> 20,
              bd |-> 6, qd |-> 6, bls |-> 10, qls |-> 1]

Kinds == 0..4

Ages ==
  {[Ask(Src(k, 8, 0, 0, s), None) EXCEPT !.stale = m, !.now = n] :
     k \in Kinds, s \in {0, 9, 10, 11, 20, 21}, m \in {-1, 0, 1, 10}, n \in {20, 21}}
  \cup {[Ask(Src(k, 8, 0, 0, s), Src(k, 4, 0, 0, t)) EXCEPT !.stale = m] :
     k \in Kinds, s \in {0, 9, 10, 20}, t \in {0, 9, 10, 20}, m \in {-1, 0, 10}}

Uncertain ==
  {[Ask(Src(k, p, e, d, 20), None) EXCEPT !.fn = f] :
     k \in 0..3, p \in {0, 8, 16, 24, 40}, e \in {-2, 0, 1}, d \in {0, 1, 2, 3, 5}, f \in {0, 1, 2}}
  \cup {[Ask(Src(k, p, 0, da, 20), Src(k, q, 0, db, 20)) EXCEPT !.fn = f, !.fd = 16] :
     k \in 0..3, p \in {4, 16}, q \in {8, 16}, da \in {0, 1, 3, 4}, db \in {0, 1, 2, 4}, f \in {0, 1, 4, 5, 6}}

Scales ==
  {[Ask(Src(k, p, e, 0, 20), None) EXCEPT !.bd = b, !.qd = q, !.bls = bl, !.qls = ql] :
     k \in Kinds, p \in {1, 7, 25}, e \in {-3, -1, 0, 2}, b \in {5, 6, 8}, q \in {5, 6, 7}, bl \in {1, 10, 60}, ql \in {1, 7}}
  \cup {[Ask(Src(k, p, e, 0, 20), Src(k, q, g, 0, 20)) EXCEPT !.bd = b, !.bls = bl, !.qls = 3] :
     k \in Kinds, p \in {7, 25}, e \in {-2, 0}, q \in {2, 3}, g \in {-1, 0}, b \in {5, 6, 7}, bl \in {10, 60}}

Oddities ==
  {[Ask(Src(k, p, 0, 0, 20), None) EXCEPT !.odd = o] : k \in 1..3, p \in {-1, 0, 1}, o \in {0, 1}}
  \cup {[Ask(Src(k, p, 0, 0, 20), Src(k, q, 0, 0, 20)) EXCEPT !.odd = o] :
          k \in Kinds, p \in {0, 8}, q \in {0, 4}, o \in 0..2}
  \cup {Ask(Src(k, 8, 0, 0, 20), Src(k, -4, 0, 0, 20)) : k \in 1..3}
  \cup {[Ask([Src(k, p, 0, d, s) EXCEPT !.tr = t, !.pp = pp, !.pd = pd, !.psl = ps], None) EXCEPT !.stale = m] :
          k \in {1, 2}, p \in {-5, 16}, d \in {0, 3}, s \in {5, 19}, t \in {0, 1}, pp \in {-3, 8}, pd \in {0, 2},
          ps \in {5, 18}, m \in {-1, 10}}
  \cup {Ask(a, b) : a \in {Src(5, 1, 0, 0, 20), Src(0, 8, 0, 0, 20)}, b \in {None, Src(5, 1, 0, 0, 20)}}
  \cup {Ask(None, None)}

Cases == Ages \cup Uncertain \cup Scales \cup Oddities

ASSUME IOEnv.OUT = "" \/ JsonSerialize(IOEnv.OUT, [acts |-> SetToSeq(Cases), setups |-> <<[id |-> 1]>>])

Init == r \in Cases
Next == UNCHANGED r

Priced == \E x \in Answers(r) : x >= 0
Firm == Cardinality(Answers(r)) = 1

(* A price never comes from anything too old or too uncertain.               *)
Fresh == Priced /\ r.stale >= 0 =>
           \A x \in {r.a, r.b} : x.k \in 1..3 => (Said(x).sl + r.stale >= r.now)
Certain == Priced /\ r.b.k = -1 => Said(r.a).d * r.fd * Said(r.a).div <= r.fn * Said(r.a).p
(* Neither do the market's units matter for whether there is one, and the    *)
(* price is what a lot of base costs in lots of quote.                       *)
Unitless == ~Firm \/ Priced = (\E x \in Answers([r EXCEPT !.bls = 1, !.qls = 2]) : x >= 0)
Worth == Priced => LET f == Frac(r) IN Lots(r) * f.den <= f.num /\ f.num < (Lots(r) + 1) * f.den
(* A quote in the same units as the base is worth one.                       *)
Same == (Priced /\ r.b = r.a /\ r.bls = r.qls /\ r.bd = r.qd) => Lots(r) = 1
=============================================================================
