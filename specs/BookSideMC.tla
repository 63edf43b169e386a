----------------------------- MODULE BookSideMC -----------------------------
(* All short histories of a small book side, checked against statements that *)
(* do not use the definitions they are about. The actions and starting       *)
(* points are also those the implementation is put through (OUT).            *)
EXTENDS BookSide, Json, IOUtils

FOCUS == IOEnv.FOCUS
DEPTH == atoi(IOEnv.DEPTH)

VARIABLES k, t, leaf, gone, path

(* ------------------------------------------------------------ operations *)
Key(hi, mid, lo) == <<hi, 0, 0, mid, 0, 0, 0, lo>>
Ones == [i \in 1..8 |-> 65535]
InsK(tr, key, tif) == [op |-> "ins", tr |-> tr, k |-> key, ts |-> 1000, tif |-> tif]
RemK(tr, key) == [op |-> "rem", tr |-> tr, k |-> key]
InsP(tr, px, tif, plim, q) == [op |-> "ins", tr |-> tr, px |-> px, ts |-> 1000, tif |-> tif, plim |-> plim, q |-> q]
RmExp(tr, now) == [op |-> "rmexp", tr |-> tr, now |-> now]
RmWorst(orc) == [op |-> "rmworst", now |-> 1000, orc |-> orc]

(* neighbours in the last, the first and a middle bit *)
Keys == <<Key(0, 0, 0), Key(0, 0, 1), Key(0, 0, 2), Key(0, 32768, 1), Key(32768, 0, 0), Ones>>
Acts ==
  CASE FOCUS = "keys" ->
         [i \in 1..6 |-> InsK(0, Keys[i], 0)] \o [i \in 1..2 |-> InsK(1, Keys[3 * i], 0)]
         \o [i \in 1..6 |-> RemK(0, Keys[i])] \o <<RemK(1, Keys[3]), [op |-> "treeworst", tr |-> 0]>>
    [] FOCUS = "expiry" ->
         <<InsK(0, Keys[1], 5), InsK(0, Keys[2], 9), InsK(0, Keys[3], 0), InsK(0, Keys[4], 5), InsK(0, Keys[5], 7),
           InsK(0, Keys[1], 8), InsK(0, Keys[4], 0), InsK(1, Keys[1], 6), InsK(1, Keys[5], 3)>>
         \o <<RemK(0, Keys[1]), RemK(0, Keys[2]), RemK(0, Keys[4]), RemK(1, Keys[1]),
              RmExp(0, 1006), RmExp(1, 1006), RmExp(0, 1009), RmExp(1, 1001)>>
    [] FOCUS = "prices" ->
         <<InsP(0, 3, 0, -1, 2), InsP(0, 5, 0, -1, 3), InsP(0, 4, 5, -1, 1), InsP(0, Top, 0, -1, 1), InsP(0, 1, 0, -1, 4),
           InsP(1, 0, 0, -1, 2), InsP(1, -2, 0, -1, 3), InsP(1, 2, 0, 4, 1), InsP(1, -1, 5, 3, 2), InsP(1, 1, 0, 5, 2),
           InsP(1, Top - 4, 0, -1, 1), InsP(1, Bottom, 0, -1, 1)>>

Crowd(n, m) == [i \in 1..n |-> InsK(0, <<(i * 40503) % 65536, 0, 0, i, 0, 0, 0, 7>>, IF i % 5 = 0 THEN i ELSE 0)]
               \o [i \in 1..m |-> InsK(1, <<1, 0, 0, 0, 0, 0, 0, i>>, 0)]
Setup(id, side, prefix) == [id |-> id, side |-> side, style |-> IF FOCUS = "prices" THEN 1 ELSE 0, prefix |-> prefix]
Setups ==
  CASE FOCUS = "keys" ->
         <<Setup("empty asks", 1, <<>>), Setup("empty bids", 0, <<>>),
           Setup("some", 1, [i \in 1..5 |-> InsK(0, Keys[1 + ((i * 3) % 6)], 0)] \o <<RemK(0, Keys[4]), InsK(1, Keys[3], 0)>>),
           Setup("two nodes left", 1, Crowd(511, 1)), Setup("one node left", 0, Crowd(512, 0))>>
    [] FOCUS = "expiry" ->
         <<Setup("empty asks", 1, <<>>), Setup("bids", 0, <<InsK(0, Keys[4], 4), InsK(0, Keys[1], 2), InsK(0, Keys[2], 2)>>),
           Setup("deep", 0, [i \in 1..6 |-> InsK(0, Keys[i], 20 - i)])>>
    [] FOCUS = "prices" ->
         <<Setup("asks", 1, <<>>), Setup("bids", 0, <<>>),
           Setup("more asks", 1, <<InsP(0, 3, 0, -1, 1), InsP(1, -1, 0, -1, 2)>>),
           Setup("more bids", 0, <<InsP(0, 4, 0, -1, 1), InsP(1, 1, 0, 4, 2)>>)>>

Oracles == <<-1, 0, 1, 2, 3, 4, Top, Top - 5>>
Queries == IF FOCUS # "prices" THEN <<>>
        ELSE [i \in 1..16 |-> [op |-> "query", orc |-> Oracles[1 + (i % 8)], now |-> IF i > 8 THEN 1005 ELSE 1004,
                               lims |-> <<1, 3, 4, Top>>, qs |-> <<1, 2, 4, 7>>]]
             \o [i \in 1..8 |-> RmWorst(Oracles[i])]
ASSUME JsonSerialize(IOEnv.OUT, [acts |-> Acts, setups |-> Setups, last |-> Queries])

(* ---------------------------------------------------------------- steps *)
Step(side, tt, lf, a) ==
  CASE a.op = "ins" -> {Insert(side, tt, a.tr + 1, Leaf(side, a, Len(lf) + 1))}
    [] a.op = "rem" -> {Erase(side, tt, a.tr + 1, a.k)}
    [] a.op = "treeworst" -> {RemoveLast(tt, a.tr + 1)}
    [] a.op = "rmexp" -> Drop(tt, a.tr + 1, a.now)
    [] OTHER -> {Fails(tt)}
Grown(side, lf, a) == IF a.op = "ins" THEN Append(lf, Leaf(side, a, Len(lf) + 1)) ELSE lf

Small == {i \in DOMAIN Setups : Len(Setups[i].prefix) < 10}
Prefixed(i) == FoldLeft(LAMBDA s, a : LET o == CHOOSE o \in Step(Setups[i].side, s.t, s.leaf, a) : TRUE
                                          g == Grown(Setups[i].side, s.leaf, a)
                                      IN [t |-> o.t, leaf |-> g,
                                          gone |-> IF a.op = "ins" THEN (IF ~o.ok THEN s.gone \cup {Len(g)}
                                                                         ELSE IF o.ret # 0 THEN s.gone \cup {o.ret} ELSE s.gone)
                                                   ELSE IF o.ok THEN s.gone \cup {o.ret} ELSE s.gone],
                        [t |-> <<<<>>, <<>>>>, leaf |-> <<>>, gone |-> {}], Setups[i].prefix)

Init == /\ k \in Small
        /\ LET s == Prefixed(k) IN t = s.t /\ leaf = s.leaf /\ gone = s.gone
        /\ path = <<k>>
        /\ PrintT(<<"PATH", ToString(path)>>)
Next ==
  /\ Len(path) <= DEPTH
  /\ k' = k
  /\ \E i \in DOMAIN Acts :
       LET a == Acts[i] IN
       \E o \in Step(Setups[k].side, t, leaf, a) :
         /\ t' = o.t
         /\ leaf' = Grown(Setups[k].side, leaf, a)
         /\ gone' = IF a.op = "ins" THEN (IF ~o.ok THEN gone \cup {Len(leaf')}
                                          ELSE IF o.ret # 0 THEN gone \cup {o.ret} ELSE gone)
                    ELSE IF o.ok THEN gone \cup {o.ret} ELSE gone
         /\ path' = Append(path, i)
         /\ PrintT(<<"PATH", ToString(path')>>)
         (* dropping takes only what has run out, the soonest of its kind, and finds what is there *)
         /\ Assert(a.op # "rmexp" \/
              IF o.ok THEN /\ leaf[o.ret].exp < a.now
                           /\ \E w \in 1..2 : /\ \E j \in DOMAIN t[w] : t[w][j].id = o.ret
                                              /\ \A j \in DOMAIN t[w] : t[w][j].exp >= leaf[o.ret].exp
              ELSE \A w \in 1..2 : \A j \in DOMAIN t[w] : t[w][j].exp >= a.now, <<"drop", t, a, o>>)

(* ----------------------------------------------------------- statements *)
side == Setups[k].side
Ids(w) == {t[w][i].id : i \in DOMAIN t[w]}
Exact == /\ Ids(1) \cup Ids(2) \cup gone = DOMAIN leaf
         /\ Len(t[1]) + Len(t[2]) + Cardinality(gone) = Len(leaf)
         /\ \A w \in 1..2 : \A i \in DOMAIN t[w] : t[w][i] = leaf[t[w][i].id]
Sorted == \A w \in 1..2 : \A i \in 1..Len(t[w]) - 1 : Before(side, t[w][i].k, t[w][i + 1].k)
Fits == Free(t) >= 0
Knows == \A w \in 1..2 : LET e == {t[w][i].exp : i \in DOMAIN t[w]}
                         IN e # {} => Soonest(t[w]) \in e /\ \A x \in e : Soonest(t[w]) <= x

Ranked ==
  FOCUS = "prices" =>
  \A o \in {Oracles[i] : i \in DOMAIN Oracles} : \A now \in {1004, 1005} :
    LET w == Walk(side, t, now, o)
        ids == {w[i].id : i \in DOMAIN w}
        last == Worst(side, t, o)
    IN /\ Cardinality(ids) = Len(w)
       /\ Ids(1) \subseteq ids
       /\ \A x \in Ids(2) : x \in ids <=> o # -1 /\ Add(o, leaf[x].k[1]) \in 1..Top - 1
       /\ \A i, j \in DOMAIN w : i < j => ~Better(side, w[j].px, w[i].px) /\ (w[i].px = w[j].px => w[i].id < w[j].id)
       /\ \A i \in DOMAIN w : w[i].ok <=> leaf[w[i].id].exp > now
                                          /\ ~(w[i].w = 2 /\ leaf[w[i].id].plim # -1 /\ Better(side, w[i].px, leaf[w[i].id].plim))
       /\ \A q \in 1..6 : LET p == Impact(w, q) IN
            IF p = -1 THEN Depth(side, w, IF side = 1 THEN Top ELSE 1) < q
            ELSE Depth(side, w, p) >= q /\ \A r \in {w[i].px : i \in DOMAIN w} : Better(side, r, p) => Depth(side, w, r) < q
       /\ w # <<>> /\ (o = -1 \/ Ids(2) \subseteq ids) => LET x == w[Len(w)] IN last = <<x.w, x.px>> /\ x.id = t[x.w][Len(t[x.w])].id

View == <<k, t, leaf, gone>>
=============================================================================
