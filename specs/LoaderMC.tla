------------------------------ MODULE LoaderMC ------------------------------
EXTENDS Loader, TLC, Sequences, SequencesExt, Json, IOUtils

VARIABLE r

L(ty, via, own, disc, flip, b, n, bw) ==
  [op |-> "load", ty |-> ty, via |-> via, own |-> own, disc |-> disc, flip |-> flip, b |-> b, n |-> n, bw |-> bw]

Types == 0..4
Ways == 0..7
Right == {L(t, v, 1, t, -1, 1, n, 0) : t \in Types, v \in Ways, n \in {0, 1, 13}}
Wrong == {L(t, v, o, d, -1, 1, n, 0) : t \in Types, v \in Ways, o \in 0..2, d \in -1..5, n \in {-1, 0}}
Near  == {L(t, v, 1, t, f, 1, 0, 0) : t \in Types, v \in Ways, f \in {0, 7, 13, 31, 32, 40, 55, 63}}
Short == {L(t, v, 1, t, -1, 0, n, 0) : t \in Types, v \in Ways, n \in 0..9}
         \cup {L(t, v, 1, t, -1, 1, n, 0) : t \in Types, v \in Ways, n \in {-1, -8, -100}}
Used  == {L(t, v, o, d, -1, 1, 0, w) : t \in Types, v \in 0..4, o \in {0, 1}, d \in {0, 3}, w \in 0..2}
Keys  == {[op |-> "key", x |-> x, y |-> y] : x \in -1..3, y \in -1..3}

Cases == Right \cup Wrong \cup Near \cup Short \cup Used \cup Keys
ASSUME IOEnv.OUT = "" \/ JsonSerialize(IOEnv.OUT, [acts |-> SetToSeq(Cases), setups |-> <<[id |-> 1]>>])

Init == r \in Cases
Next == UNCHANGED r

(* Only what is whole, ours and of the right type is ever read, and it is.   *)
Ours == (r.op = "load" /\ Loads(r)) => (r.own = 1 /\ r.disc = r.ty /\ r.flip = -1)
OneType == (r.op = "load" /\ Loads(r)) => \A t \in Types \ {r.ty} : ~Loads([r EXCEPT !.ty = t])
AnyWay == (r.op = "load" /\ Loads(r) /\ r.bw = 0) => \A v \in Ways : Loads([r EXCEPT !.via = v])
Reads == (r.op = "load" /\ r \in Right) => Loads(r)
UnsetIsNobody == (r.op = "key" /\ ~Set(r.x)) => \A y \in -1..3 : ~EqualsKey(r.x, y)
Exact == r.op = "key" => (EqualsKey(r.x, r.y) <=> (r.x = r.y /\ r.x > 0))
=============================================================================
