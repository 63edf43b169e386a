--------------------------- MODULE CreateMarketMC ---------------------------
EXTENDS CreateMarket, TLC, Sequences, SequencesExt, Json, IOUtils

VARIABLE r

Big == 2147483647
Plain == [op |-> "create", qls |-> 10, bls |-> 100, mf |-> 0, tf |-> 0, exp |-> 0, oa |-> 1, ob |-> 0, nm |-> 3,
          st |-> -1, cn |-> 2, oo |-> 0, ce |-> 0, cm |-> 1, bd |-> 6, qd |-> 6, odd |-> 0]

Bounds == {-Big, -Scale - 1, -Scale, -Scale + 1, -401, -400, -1, 0, 1, 399, 400, 401, Scale - 1, Scale, Scale + 1, Big}
FeeCases == {[Plain EXCEPT !.mf = m, !.tf = t] : m \in Bounds, t \in Bounds}
LotCases == {[Plain EXCEPT !.qls = q, !.bls = b] :
               q \in {-Big, -1, 0, 1, 7, Big}, b \in {-Big, -1, 0, 1, 1000000, Big}}
TimeCases == {[Plain EXCEPT !.exp = x, !.tf = t] :
                x \in {-Big, -1, 0, 1, Now - 1, Now, Now + 1, Now + 1000, Big}, t \in {-1, 0, 5}}
OracleCases == {[Plain EXCEPT !.oa = x, !.ob = y, !.st = s, !.cn = c] :
                  x \in 0..13, y \in 0..13, s \in {-1, 0, 100}, c \in {0, 16}}
NameCases == {[Plain EXCEPT !.nm = n, !.st = s, !.cn = c, !.bd = b, !.qd = q] :
                n \in {0, 1, 15, 16, 17, 36}, s \in {-1, 0, 1, Big}, c \in {0, 1, 8}, b \in {0, 9}, q \in {0, 6}}
AdminCases == {[Plain EXCEPT !.oo = o, !.ce = e, !.cm = c, !.oa = a, !.ob = b, !.exp = x] :
                 o \in 0..1, e \in 0..1, c \in 0..1, a \in 0..1, b \in {0, 2}, x \in {0, Now + 5}}
OddCases == {[Plain EXCEPT !.odd = o, !.oa = a] : o \in 0..19, a \in 0..1}

Cases == FeeCases \cup LotCases \cup TimeCases \cup OracleCases \cup NameCases \cup AdminCases \cup OddCases
ASSUME IOEnv.OUT = "" \/ JsonSerialize(IOEnv.OUT, [acts |-> SetToSeq(Cases), setups |-> <<[id |-> 1]>>])

Init == r \in Cases
Next == UNCHANGED r

(* In a sound market a fill never costs the market: what the taker pays      *)
(* covers the rebate of the maker; nobody pays more than was traded.         *)
Covered == Sound(r) => r.tf + r.mf >= 0 \/ r.mf >= 0
Bounded == Sound(r) => r.tf <= Scale /\ r.mf <= Scale /\ -r.mf <= Scale
Trades == Sound(r) => r.exp = 0 \/ r.exp > Now
Priced == Sound(r) /\ r.ob # 0 => r.oa # 0
Faithful == Sound(r) => (LET m == Made(r) IN m.mf = r.mf /\ m.tf = r.tf /\ m.oa = r.oa /\ m.ob = r.ob)
=============================================================================
