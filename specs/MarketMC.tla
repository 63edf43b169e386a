------------------------------ MODULE MarketMC ------------------------------
(* Bounded model checking of Market. FOCUS chooses the markets and the       *)
(* actions, DEPTH how many actions after the prepared start are combined;    *)
(* everything up to that depth is explored. OUT receives the start states    *)
(* and actions as JSON and each distinct state is printed as the path that   *)
(* leads to it, so that the program can be put through the same transitions. *)
EXTENDS MarketQuote, ClientView, Json, IOUtils

FOCUS == IOEnv.FOCUS
DEPTH == atoi(IOEnv.DEPTH)
PROP == IOEnv.PROP
WIDE == IOEnv.WIDE = "1"       \* larger sets of parameters

T0 == 1000000
People == 10

-----------------------------------------------------------------------------
(* Markets *)

Cfg0 == [qls |-> 10, bls |-> 100, mf |-> 0, tf |-> 0, exp |-> 0, orc |-> 1, stale |-> -1,
         ooadm |-> 0, ceadm |-> 0, cmadm |-> 9, wallet |-> 1000000]

Account(i, accts) ==
  [ex |-> 1, m |-> 0, ow |-> accts[i].ow, dl |-> accts[i].dl,
   num |-> Cardinality({j \in 1..i : accts[j].ow = accts[i].ow}),
   bb |-> 0, ab |-> 0, bf |-> 0, qf |-> 0, lf |-> 0, rr |-> 0, pen |-> 0, mv |-> 0, tv |-> 0,
   bq |-> 0, oo |-> <<>>]

Start(c, accts) ==
  [t |-> T0, sl |-> 1000,
   orc |-> [n |-> c.orc, pa |-> IF c.orc > 0 THEN 10 ELSE 0, sa |-> IF c.orc > 0 THEN 1000 ELSE 0,
            pb |-> IF c.orc > 1 THEN 1 ELSE 0, sb |-> IF c.orc > 1 THEN 1000 ELSE 0],
   m |-> [open |-> 1, qls |-> c.qls, bls |-> c.bls, mf |-> c.mf, tf |-> c.tf,
          exp |-> IF c.exp = 0 THEN 0 ELSE T0 + c.exp, seq |-> 0, facc |-> 0, fref |-> 0, rracc |-> 0,
          favail |-> 0, mvol |-> 0, tvol |-> 0, bdt |-> 0, qdt |-> 0, feeadm |-> 6, ooadm |-> c.ooadm,
          ceadm |-> c.ceadm, cmadm |-> c.cmadm, stale |-> c.stale, ml |-> 0],
   bids |-> <<>>, asks |-> <<>>, heap |-> <<>>,
   oos |-> [i \in 1..Len(accts) |-> Account(i, accts)],
   hwb |-> 0, hwa |-> 0, vb |-> 0, vq |-> 0,
   wb |-> [p \in 1..People |-> IF p <= 5 THEN c.wallet ELSE 0],
   wq |-> [p \in 1..People |-> IF p <= 5 THEN c.wallet ELSE 0],
   lg |-> <<>>]

-----------------------------------------------------------------------------
(* Actions *)

A(o) == o @@ [m |-> 0, sg |-> 1, oo |-> 0, ad |-> 0, rem |-> <<>>, must |-> 0]

Accts == << [ow |-> 1, dl |-> 0], [ow |-> 2, dl |-> 4], [ow |-> 1, dl |-> 0] >>
OwnerOf(i) == Accts[i].ow

Order(i, sd, px, mb, o) ==
  A(o @@ [op |-> "place", oo |-> i, sg |-> OwnerOf(i), sd |-> sd, pg |-> 0, px |-> px, plim |-> -1, mb |-> mb,
          mq |-> 100000, cid |-> i, ty |-> Limit, exp |-> 0, stp |-> Decrement, lim |-> 20])
Peg(i, sd, off, plim, mb, o) == Order(i, sd, off, mb, o @@ [pg |-> 1, plim |-> plim])
TakeIt(p, sd, px, mb, o) ==
  A(o @@ [op |-> "take", sg |-> p, sd |-> sd, pg |-> 0, px |-> px, plim |-> -1, mb |-> mb, mq |-> 100000,
          cid |-> 0, ty |-> IOC, exp |-> 0, stp |-> Decrement, lim |-> 20])
Crank(lim, rem) == A([op |-> "consume", lim |-> lim, rem |-> rem])
Pay(i, ref) == A([op |-> "settle", oo |-> i, sg |-> OwnerOf(i), db |-> OwnerOf(i), dq |-> OwnerOf(i), ref |-> ref])
DropAll(i, sd, lim) == A([op |-> "call", oo |-> i, sg |-> OwnerOf(i), sd |-> sd, lim |-> lim])
DropCid(i, cid) == A([op |-> "ccid", oo |-> i, sg |-> OwnerOf(i), cid |-> cid])
Drop(i, sd, pg, pd, seq) ==
  A([op |-> "cancel", oo |-> i, sg |-> OwnerOf(i), sd |-> sd, tr |-> pg, pd |-> pd, seq |-> seq])
Wait(dt, ds) == A([op |-> "tick", dt |-> dt, ds |-> ds])
Oracle(p) == A([op |-> "orc", which |-> 1, p |-> p])
Oracle2(p) == A([op |-> "orc", which |-> 2, p |-> p])
Batch(i, bids, asks, o) ==
  A(o @@ [op |-> "multi", oo |-> i, sg |-> OwnerOf(i), can |-> 0, ty |-> Limit, bids |-> bids, asks |-> asks, lim |-> 10])
Leg(px, mq) == [px |-> px, mq |-> mq, exp |-> 0]
Edits(i, ecid, esz, sd, px, mb, o) == Order(i, sd, px, mb, o @@ [op |-> "edit", ecid |-> ecid, esz |-> esz])

None == [x \in {} |-> 0]
All3 == <<1, 2, 3>>

(* prepared books *)
TwoSided == << Order(1, Bid, 4, 2, None), Order(2, Bid, 4, 1, None), Order(3, Bid, 3, 2, None),
               Order(2, Ask, 6, 2, None), Order(1, Ask, 6, 1, None), Order(3, Ask, 8, 2, None) >>

FeeCases == << [mf |-> -20000, tf |-> 50000], [mf |-> 30000, tf |-> 70000] >>
MoreFees == << [mf |-> 0, tf |-> 0], [mf |-> -333, tf |-> 777], [mf |-> 150000, tf |-> 1] >>
Fees == IF WIDE THEN FeeCases \o MoreFees ELSE FeeCases

With(c, prefix) == [cfg |-> c @@ Cfg0, accts |-> Accts, prefix |-> prefix]

Markets ==
  CASE FOCUS = "trade" -> [k \in DOMAIN Fees |-> With(Fees[k], <<>>)]
    [] FOCUS = "types" -> [k \in DOMAIN Fees |-> With(Fees[k], TwoSided)]
    [] FOCUS = "peg" ->
         [k \in DOMAIN FeeCases |->
            With(FeeCases[k] @@ [qls |-> 100, stale |-> 10],
                 << Oracle(10), Peg(1, Bid, -2, 9, 2, None), Peg(2, Bid, -3, 12, 1, None),
                    Peg(2, Ask, 2, 9, 2, None), Peg(3, Ask, -12, 11, 1, None), Peg(1, Ask, -11, 9, 2, None),
                    Order(3, Bid, 7, 1, None), Order(2, Ask, 13, 1, None) >>)]
    [] FOCUS = "self" -> [k \in DOMAIN Fees |-> With(Fees[k], TwoSided)]
    [] FOCUS = "expiry" ->
         [k \in 1..2 |->
           With(Fees[k], << Order(1, Bid, 4, 2, [exp |-> T0 + 2]), Order(2, Bid, 3, 1, [exp |-> T0 + 1]),
                            Order(2, Bid, 5, 1, None), Peg(3, Bid, -6, 20, 1, [exp |-> T0 + 1]),
                            Order(3, Ask, 7, 1, [exp |-> T0 + 2]), Order(2, Ask, 7, 2, [exp |-> T0 + 1]) >>)]
    [] FOCUS = "stale" ->
         LET old(sd, px) == [k \in 1..7 |-> Order(1 + (k % 3), sd, px + (k \div 3) * (2 * sd - 1), 1, [exp |-> T0 + 1])]
         IN [k \in 1..2 |->
              With(Fees[k], old(Bid, 6) \o old(Ask, 8)
                            \o << Order(2, Bid, 5, 2, None), Peg(3, Bid, -6, 20, 1, None), Order(3, Bid, 3, 1, None),
                                  Order(3, Ask, 9, 2, None), Peg(1, Ask, 0, 1, 1, [exp |-> T0 + 9]), Order(2, Ask, 12, 1, None),
                                  Wait(2, 0) >>)]
    [] FOCUS = "many" ->
         [k \in 1..2 |->
            With(Fees[k], [i \in 1..20 |-> Order(1 + (i % 3), Ask, 6 + i \div 9, 1 + (i % 2), None)]
                          \o [i \in 1..20 |-> Order(1 + (i % 3), Bid, 4 - i \div 9, 1 + (i % 2), None)])]
    [] FOCUS = "crank" ->
         [k \in DOMAIN Fees |->
            With(Fees[k], TwoSided \o << TakeIt(4, Bid, 6, 2, None), Order(3, Ask, 4, 2, None) >>)]
    [] FOCUS = "cancel" -> [k \in DOMAIN Fees |-> With(Fees[k], TwoSided)]
    [] FOCUS = "funds" ->
         [k \in DOMAIN Fees |->
            With(Fees[k] @@ [wallet |-> 5000], TwoSided \o << Order(3, Bid, 6, 2, None), Order(2, Ask, 4, 3, None) >>)]
    [] FOCUS = "batch" -> [k \in DOMAIN Fees |-> With(Fees[k] @@ [wallet |-> 3000], SubSeq(TwoSided, 1, 4))]
    [] FOCUS = "wind" ->
         [k \in 1..2 |-> With(Fees[k] @@ (IF k = 1 THEN [exp |-> 3] ELSE None),
                              TwoSided \o << TakeIt(4, Bid, 6, 2, None), Order(3, Ask, 4, 1, None) >>)]
    [] FOCUS = "auth" ->
         << With(FeeCases[1] @@ [ooadm |-> 7, ceadm |-> 8], << [Order(1, Bid, 4, 2, None) EXCEPT !.ad = 7],
                 [Order(2, Ask, 4, 1, None) EXCEPT !.ad = 7], [Order(2, Ask, 6, 1, None) EXCEPT !.ad = 7] >>),
            With(FeeCases[2], << Order(1, Bid, 4, 2, None), Order(2, Ask, 4, 1, None), Order(2, Ask, 6, 1, None) >>),
            With(FeeCases[2] @@ [cmadm |-> 0], << Order(1, Bid, 4, 2, None), Order(2, Ask, 6, 1, None) >>) >>
    [] FOCUS = "twin" ->
         << With(FeeCases[1] @@ [orc |-> 2, stale |-> 5],
                 << Oracle(40), Oracle2(4), Peg(1, Bid, -90, 50, 2, None), Peg(2, Ask, -95, 2, 2, None),
                    Order(3, Bid, 5, 1, None), Order(1, Ask, 20, 1, None) >>) >>
    [] FOCUS = "quote" ->
         [k \in DOMAIN Fees |->
            With(Fees[k] @@ [stale |-> 10], TwoSided \o << Order(2, Ask, 5, 1, [exp |-> T0 + 2]), Order(1, Bid, 5, 3, [exp |-> T0 + 2]),
                 Peg(2, Ask, -94, 5, 1, None), Peg(3, Bid, -96, 6, 1, None) >>)]
         \o << With(FeeCases[1] @@ [ooadm |-> 7], << [Order(1, Bid, 4, 2, None) EXCEPT !.ad = 7] >>) >>

Universe ==
  CASE FOCUS = "trade" ->
         {Order(i, sd, px, mb, None) : i \in {1, 2}, sd \in {0, 1}, px \in {2, 3}, mb \in {1, 2}}
         \cup {TakeIt(4, sd, px, 3, None) : sd \in {0, 1}, px \in {2, 3}}
         \cup {Crank(8, All3), Pay(1, 0), Pay(2, 5), DropAll(1, -1, 8), DropAll(2, 0, 1)}
    [] FOCUS = "types" ->
         {Order(i, sd, px, mb, [ty |-> ty, mq |-> mq]) :
            i \in IF WIDE THEN {1, 2} ELSE {2}, sd \in {0, 1}, px \in {3, 4, 6, 8}, mb \in {1, 4},
            ty \in 0..5, mq \in IF WIDE THEN {13, 25, 100000} ELSE {13, 100000}}
         \cup {TakeIt(4, sd, px, mb, [ty |-> ty]) : sd \in {0, 1}, px \in {4, 6}, mb \in {2, 9}, ty \in {1, 3, 5}}
    [] FOCUS = "peg" ->
         {Peg(i, sd, off, lim, 1, [ty |-> ty]) : i \in {1}, sd \in {0, 1}, off \in {-11, -1, 2}, lim \in {1, 11},
            ty \in {0, 2, 4}}
         \cup {Oracle(p) : p \in {0, 4, 9, 12, 30}}
         \cup {Order(3, sd, px, 3, [ty |-> ty]) : sd \in {0, 1}, px \in {1, 8, 12}, ty \in {0, 1}}
         \cup {TakeIt(4, sd, px, 9, None) : sd \in {0, 1}, px \in {1, 8, 12, 20}}
         \cup {Crank(8, All3), Wait(1, 11), DropAll(1, -1, 8), DropAll(2, -1, 8), DropAll(3, 1, 8), Pay(1, 0), Pay(2, 6)}
    [] FOCUS = "self" ->
         {Order(i, sd, px, mb, [stp |-> stp, ty |-> ty]) : i \in {1, 3}, sd \in {0, 1}, px \in {4, 6, 8}, mb \in {1, 5},
            stp \in 0..2, ty \in IF WIDE THEN {0, 1, 5} ELSE {0, 1}}
         \cup {TakeIt(1, sd, IF sd = 0 THEN 8 ELSE 3, 4, None) : sd \in {0, 1}}
         \cup {Crank(8, All3), Crank(8, <<1>>), Pay(1, 0), Pay(3, 0), DropAll(1, -1, 9), DropAll(3, -1, 9)}
         \cup {Order(1, 0, 8, 5, [rem |-> <<1, 2>>]), Order(1, 0, 8, 5, [rem |-> <<2>>, stp |-> 1])}
    [] FOCUS = "expiry" ->
         {Order(i, sd, px, 1, [exp |-> e]) : i \in {1, 2}, sd \in {0, 1}, px \in {4, 6}, e \in {0, T0, T0 + 3}}
         \cup {Order(1, 0, 3, 1, [exp |-> T0 + 70000]), Peg(1, 0, -7, 20, 1, [exp |-> T0 + 3]), Peg(1, 1, -2, 1, 1, None)}
         \cup {TakeIt(4, sd, IF sd = 0 THEN 8 ELSE 2, 2, None) : sd \in {0, 1}}
         \cup {Wait(1, 0), Wait(2, 0), Crank(8, All3), Crank(1, <<2>>), DropAll(1, -1, 9), DropAll(2, -1, 9),
               Pay(1, 0), Pay(2, 0), Order(2, 0, 4, 1, [rem |-> <<1, 3>>]), Order(1, 1, 8, 2, [rem |-> <<2, 3>>])}
    [] FOCUS = "stale" ->
         {Order(i, sd, IF sd = 0 THEN 20 ELSE 1, mb, [rem |-> rem, lim |-> l, ty |-> ty]) :
            i \in {1, 2}, sd \in {0, 1}, mb \in {1, 4}, rem \in {<<>>, <<3>>, <<3, 1>>}, l \in {1, 20}, ty \in {0, 1}}
         \cup {TakeIt(4, sd, IF sd = 0 THEN 20 ELSE 1, mb, [rem |-> rem]) : sd \in {0, 1}, mb \in {1, 4}, rem \in {<<>>, All3}}
         \cup {Order(2, sd, IF sd = 0 THEN 3 ELSE 20, 1, [exp |-> e]) : sd \in {0, 1}, e \in {0, T0 + 4}}
         \cup {Peg(2, sd, IF sd = 0 THEN -9 ELSE 9, 10, 1, None) : sd \in {0, 1}}
         \cup {Crank(8, All3), Crank(8, <<1>>), Wait(9, 0), DropAll(3, -1, 9)}
    [] FOCUS = "many" ->
         {Order(i, sd, px, mb, [rem |-> rem, lim |-> l, ty |-> ty]) :
            i \in {1, 2}, sd \in {0, 1}, px \in {1, 10}, mb \in {17, 40}, rem \in {<<>>, <<3>>, <<1, 3>>, <<2, 3>>},
            l \in {10, 255}, ty \in {0, 5}}
         \cup {TakeIt(4, sd, px, mb, [rem |-> rem, lim |-> l]) :
            sd \in {0, 1}, px \in {1, 10}, mb \in {16, 40}, rem \in {<<>>, <<3, 2>>, All3}, l \in {15, 30}}
         \cup {Crank(8, All3), Crank(8, <<2>>), Crank(20, All3), A([op |-> "consumeg", sl |-> <<9, 1, 5>>, rem |-> All3]),
               DropAll(1, -1, 255), DropAll(2, 0, 5), Pay(1, 0)}
    [] FOCUS = "crank" ->
         {Crank(lim, rem) : lim \in {0, 1, 2, 8, 9}, rem \in {<<>>, <<1>>, <<2>>, <<3, 1>>, All3}}
         \cup {A([op |-> "consumeg", sl |-> sl, rem |-> rem]) :
                 sl \in {<<>>, <<0>>, <<1>>, <<2, 0>>, <<1, 1, 3>>, <<5>>, <<600>>}, rem \in {<<2>>, All3}}
         \cup {Order(i, sd, IF sd = 0 THEN 8 ELSE 3, 3, [rem |-> rem]) : i \in {1, 2}, sd \in {0, 1},
                 rem \in {<<>>, <<1>>, <<2>>, <<3>>, <<2, 3>>}}
         \cup {TakeIt(4, sd, IF sd = 0 THEN 8 ELSE 3, 3, [rem |-> rem]) : sd \in {0, 1}, rem \in {<<>>, <<1>>, <<2, 3>>}}
         \cup {Pay(1, 0), Pay(2, 0), DropAll(2, -1, 9)}
    [] FOCUS = "cancel" ->
         {Drop(i, sd, pg, pd, seq) : i \in {1, 2}, sd \in {0, 1}, pg \in {0}, pd \in {4, 6}, seq \in {1, 2, 4, 5}}
         \cup {DropCid(i, c) : i \in 1..3, c \in {0, 1, 2}}
         \cup {DropAll(i, sd, lim) : i \in 1..3, sd \in {-1, 0, 1}, lim \in {0, 1, 255}}
         \cup {Order(1, sd, px, 2, [cid |-> c]) : sd \in {0, 1}, px \in {5, 6, 4}, c \in {1, 2}}
         \cup {TakeIt(4, sd, IF sd = 0 THEN 8 ELSE 3, 2, None) : sd \in {0, 1}}
         \cup {Crank(8, All3), Pay(1, 0), Pay(2, 5)}
    [] FOCUS = "funds" ->
         {A([op |-> op, oo |-> i, sg |-> p, b |-> b, q |-> q]) :
            op \in {"deposit", "refill"}, i \in {1, 2}, p \in {1, 4}, b \in {0, 150, 6000}, q \in {0, 77}}
         \cup {A([op |-> "settle", oo |-> i, sg |-> p, db |-> d, dq |-> e, ref |-> r]) :
                i \in {1, 2}, p \in {1, 2, 4}, d \in {1, 2}, e \in {2, 4}, r \in {0, 6}}
         \cup {Pay(3, 0), Pay(1, 5), Pay(2, 6), A([op |-> "sweep", ad |-> 6, dq |-> 6]), A([op |-> "sweep", ad |-> 6, dq |-> 1])}
         \cup {Crank(8, All3), DropAll(1, -1, 9), DropAll(2, -1, 9), DropAll(3, -1, 9)}
         \cup {Order(i, sd, 5, 9, None) : i \in {1, 2}, sd \in {0, 1}}
         \cup {A([op |-> "closeooa", oo |-> i, sg |-> p]) : i \in {1, 2}, p \in {1, 2}}
    [] FOCUS = "batch" ->
         {Batch(i, b, k, [can |-> c, ty |-> ty]) :
            i \in {1, 2}, b \in {<<>>, <<Leg(3, 20)>>, <<Leg(6, 40), Leg(5, 999)>>},
            k \in {<<>>, <<Leg(7, BIG)>>, <<Leg(4, 9), Leg(6, 30)>>}, c \in {0, 1}, ty \in {0, 2}}
         \cup {Edits(i, c, z, sd, px, mb, None) : i \in {1, 2}, c \in {1, 2}, z \in {0, 2, 3}, sd \in {0, 1}, px \in {4, 6},
                 mb \in {1, 3}}
         \cup {Crank(8, All3), Wait(1, 0), TakeIt(4, 1, 3, 1, None), Order(3, 0, 6, 1, None), Pay(1, 0),
               Edits(1, 1, 2, 0, 4, 2, [exp |-> T0]), Edits(1, 1, 2, 0, 4, 2, [exp |-> T0 + 5]),
               Edits(1, 1, -1, 0, 4, 2, None), Batch(1, <<[px |-> 3, mq |-> 20, exp |-> T0]>>, <<Leg(7, 50)>>, None)}
    [] FOCUS = "wind" ->
         {A([op |-> "setexp", ad |-> p]) : p \in {1, 9}} \cup {Wait(2, 0), Wait(4, 0)}
         \cup {A([op |-> "prune", oo |-> i, ad |-> p, lim |-> l]) : i \in 1..3, p \in {1, 9}, l \in {1, 255}}
         \cup {A([op |-> "settlex", oo |-> i, sg |-> 5, ad |-> 9, db |-> OwnerOf(i), dq |-> OwnerOf(i), ref |-> r]) :
                i \in 1..3, r \in {0, 5}}
         \cup {A([op |-> "settlex", oo |-> 2, sg |-> 5, ad |-> p, db |-> d, dq |-> e, ref |-> 0]) :
                p \in {1, 9}, d \in {2, 5}, e \in {2, 5}}
         \cup {A([op |-> "closem", ad |-> p]) : p \in {1, 9}} \cup {A([op |-> "sweep", ad |-> 6, dq |-> 6])}
         \cup {Crank(8, All3), Order(1, 0, 3, 1, None), TakeIt(4, 0, 8, 1, None), DropAll(1, -1, 9), Pay(1, 0)}
         \cup {A([op |-> "deposit", oo |-> 1, sg |-> 1, b |-> 10, q |-> 10]),
               A([op |-> "refill", oo |-> 1, sg |-> 1, b |-> 9000, q |-> 10]),
               Edits(1, 1, 2, 0, 4, 2, None), Batch(1, <<Leg(3, 20)>>, <<>>, None)}
         \cup {A([op |-> "closeooa", oo |-> i, sg |-> OwnerOf(i)]) : i \in 1..3}
    [] FOCUS = "auth" ->
         {[x EXCEPT !.sg = p, !.ad = ad] :
            x \in {Order(2, 0, 3, 1, None), Batch(2, <<Leg(3, 20)>>, <<>>, None), Edits(2, 2, 1, 1, 6, 2, None),
                   TakeIt(4, 0, 6, 1, None)},
            p \in {1, 2, 4}, ad \in {0, 7, 2}}
         \cup {[x EXCEPT !.sg = p] : x \in {DropAll(2, -1, 9), DropCid(2, 2), Drop(2, 1, 0, 6, 3), Drop(1, 0, 0, 4, 1),
                                            A([op |-> "closeooa", oo |-> 3, sg |-> 1])},
                                     p \in {1, 2, 4, 5, 9}}
         \cup {A([op |-> "settle", oo |-> 2, sg |-> p, db |-> d, dq |-> e, ref |-> 0]) :
                p \in {1, 2, 4, 5}, d \in {2, 4, 5}, e \in {2, 4, 5}}
         \cup {A([op |-> "setdel", oo |-> 2, sg |-> p, dl |-> d]) : p \in {1, 2, 4}, d \in {0, 1, 2, 5}}
         \cup {[x EXCEPT !.ad = p] : x \in {Crank(8, All3), A([op |-> "setexp"]), A([op |-> "closem"]),
                                            A([op |-> "sweep", dq |-> 5]),
                                            A([op |-> "prune", oo |-> 1, lim |-> 9]),
                                            A([op |-> "settlex", oo |-> 2, sg |-> 5, db |-> 2, dq |-> 2, ref |-> 0]),
                                            A([op |-> "settlex", oo |-> 2, sg |-> 5, db |-> 5, dq |-> 2, ref |-> 0])},
                                     p \in {0, 1, 6, 8, 9}}
    [] FOCUS = "twin" ->
         {Oracle(p) : p \in {8, 40, 48}} \cup {Oracle2(p) : p \in {2, 4, 8}}
         \cup {Wait(0, 4), Wait(0, 6)}
         \cup {Peg(i, sd, off, lim, 1, None) : i \in {1, 3}, sd \in {0, 1}, off \in {-92, -5}, lim \in {1, 12, 60}}
         \cup {Order(3, sd, px, 3, [ty |-> ty]) : sd \in {0, 1}, px \in {1, 6, 12}, ty \in {0, 1, 4}}
         \cup {TakeIt(4, sd, px, 9, None) : sd \in {0, 1}, px \in {1, 12, 200}}
         \cup {Crank(8, All3), DropAll(1, -1, 8)}
    [] FOCUS = "quote" ->
         {A([op |-> "quote", sd |-> sd, sg |-> 5, amt |-> n]) :
            sd \in {0, 1}, n \in {0, 1, 9, 10, 49, 50, 60, 63, 64, 99, 100, 101, 125, 180, 250, 299, 300, 420, 700, 5000}}
         \cup {Order(i, sd, px, mb, [exp |-> e]) : i \in {1, 3}, sd \in {0, 1}, px \in {4, 6}, mb \in {1, 3}, e \in {0, T0 + 2}}
         \cup {TakeIt(4, sd, px, 2, None) : sd \in {0, 1}, px \in {4, 6}}
         \cup {Wait(2, 0), Wait(1, 11), Oracle(9), Oracle(11), DropAll(2, -1, 8), Crank(8, All3), A([op |-> "setexp", ad |-> 9])}

Acts == SetToSeq(Universe)

-----------------------------------------------------------------------------
(* Behaviours *)

(* events take the lowest free positions *)
RECURSIVE Placed(_)
Placed(l) ==
  IF \A i \in DOMAIN l : l[i].sl # -1 THEN l
  ELSE LET used == {l[i].sl : i \in DOMAIN l}
           i == CHOOSE i \in DOMAIN l : l[i].sl = -1 /\ \A j \in DOMAIN l : j < i => l[j].sl # -1
           f == CHOOSE x \in 0..Len(l) : x \notin used /\ \A y \in 0..Len(l) : y \notin used => x <= y
       IN Placed([l EXCEPT ![i].sl = f])
On(p) == PROP \in {p, "ALL"}
Positioned(s) == [s EXCEPT !.heap = Placed(@), !.lg = <<>>]

Prepare(mk) ==
  FoldLeft(LAMBDA s, a : LET r == Apply(s, a, <<>>) IN IF r.ok THEN Positioned(r.s) ELSE s,
           Start(mk.cfg, mk.accts), mk.prefix)

Prepared == [k \in DOMAIN Markets |-> Prepare(Markets[k])]

ASSUME JsonSerialize(IOEnv.OUT,
         [acts |-> Acts,
          setups |-> [k \in DOMAIN Markets |->
            [cfg |-> Markets[k].cfg, accts |-> Markets[k].accts, prefix |-> Markets[k].prefix,
             s0 |-> Start(Markets[k].cfg, Markets[k].accts)]]])

VARIABLES s, path, wrong

vars == <<s, path, wrong>>

Init == \E k \in DOMAIN Markets : s = Prepared[k] /\ path = <<k>> /\ wrong = {}

Next ==
  /\ Len(path) <= DEPTH
  /\ wrong = {}
  /\ \E i \in DOMAIN Acts :
       LET r == IF Acts[i].op = "quote" THEN Fail(s) ELSE Apply(s, Acts[i], <<>>)
           post == Positioned(r.s)
       IN /\ r.ok
          /\ s' = post
          /\ path' = Append(path, i)
          /\ wrong' = Breaks(PROP, s, Acts[i], post, <<>>)
                      \cup (IF On("C26") /\ ~LogsTell(s, Acts[i], post, r.s.lg) THEN {"untold"} ELSE {})

View == s
Report == PrintT(<<"PATH", ToString(path)>>)

-----------------------------------------------------------------------------
(* Properties *)


NothingBroken == wrong = {}
InvSolvent == On("C01") => Solvent(s) /\ NoDebts(s)
InvCounters == On("C05") => RebatesAccrued(s)
InvCoherent == On("C11") => Coherent(s)
InvSorted == On("C08") => Sorted(s)
InvConfluent == On("C10") => Confluent(s)
InvQuotes == On("C25") => QuoteSound(s)
InvView == On("C27") => ViewSound(s)
InvWindDown == On("C23") => CanWindDown(s)
=============================================================================
