---------------------------- MODULE MarketQuote -----------------------------
(* What the client library says about a swap in advance. A question has      *)
(* side sd, the amount amt of the token paid with, and who asks.             *)
EXTENDS MarketProps

QuoteLimit == 45
QuoteMakers == 3

(* The take that such a swap is, for somebody who can pay any amount *)
SwapTake(s, a) ==
  [op |-> "take", m |-> 0, sg |-> a.sg, oo |-> 0, ad |-> 0, rem |-> <<>>, must |-> 0, sd |-> a.sd, pg |-> 0, px |-> BIG,
   plim |-> -1, mb |-> IF a.sd = Bid THEN BIG \div s.m.bls ELSE a.amt \div s.m.bls,
   mq |-> IF a.sd = Bid THEN a.amt \div s.m.qls ELSE BIG \div s.m.qls,
   cid |-> 0, ty |-> MarketOrder, exp |-> 0, stp |-> Decrement, lim |-> QuoteLimit]

Rich(s, a) == [s EXCEPT !.wb[a.sg] = 1000000000, !.wq[a.sg] = 1000000000]

(* what it pays and brings *)
Swap(s, a) ==
  LET r == Apply(Rich(s, a), SwapTake(s, a), <<>>)
      b == 1000000000 - r.s.wb[a.sg]
      q == 1000000000 - r.s.wq[a.sg]
  IN IF ~r.ok THEN [ok |-> FALSE, paid |-> 0, got |-> 0]
     ELSE [ok |-> TRUE, paid |-> IF a.sd = Bid THEN q ELSE b, got |-> IF a.sd = Bid THEN -b ELSE -q]

(* the part of it that is not for the makers' orders themselves *)
SwapFee(s, a) ==
  LET r == Apply(Rich(s, a), SwapTake(s, a), <<>>)
      new == SubSeq(r.s.heap, Len(s.heap) + 1, Len(r.s.heap))
      worth == FoldLeft(LAMBDA x, e : x + (IF e.ty = 0 THEN e.q * e.px * s.m.qls ELSE 0), 0, new)
      w == Swap(s, a)
  IN IF a.sd = Bid THEN w.paid - worth ELSE worth - w.got

(* was everything offered used up? *)
SwapShort(s, a) ==
  LET w == Swap(s, a)
  IN IF a.sd = Ask THEN w.paid \div s.m.bls # a.amt \div s.m.bls
     ELSE (w.paid - SwapFee(s, a)) \div s.m.qls # WithoutTakerFee(a.amt \div s.m.qls, s.m.tf)

(* whose orders it meets first *)
FirstMakers(s, a) ==
  LET side == Other(a.sd)
      oracle == OraclePrice(s)
      live == SelectSeq(Ranked(side, Side(s, side), oracle), LAMBDA x : Live(side, x.o, oracle, s.t))
  IN FoldLeft(LAMBDA m, x : IF Cardinality(m) >= QuoteMakers THEN m ELSE m \cup {x.o.own}, {}, live)

(* ret: <<1, pays, brings, fee, short, fee in quote token, makers, did the   *)
(* swap work, paid, got>>, or <<0>> for an error                             *)
QuoteWrong(s, a, ret) ==
  LET w == Swap(s, a)
  IN IF s.m.ooadm # 0
     THEN IF ret[1] = 1 /\ ret[2] = 0 /\ ret[3] = 0 /\ ret[5] = 1 /\ ret[7] = <<>> THEN {} ELSE {"permissioned"}
     ELSE IF ret[1] # 1 THEN {"no-quote"}
     ELSE (IF w.ok /\ (ret[2] # w.paid \/ ret[3] # w.got) THEN {"amounts"} ELSE {})
          \cup (IF w.ok /\ (ret[4] # SwapFee(s, a) \/ ret[6] # 1) THEN {"fee"} ELSE {})
          \cup (IF w.ok /\ (ret[5] = 1) # SwapShort(s, a) THEN {"liquidity"} ELSE {})
          \cup (IF ret[2] > a.amt THEN {"overspends"} ELSE {})
          \cup (IF ToSet(ret[7]) # FirstMakers(s, a) \/ Len(ret[7]) # Cardinality(ToSet(ret[7])) THEN {"makers"} ELSE {})
          \cup (IF (ret[8] = 1) # w.ok \/ (w.ok /\ (ret[9] # w.paid \/ ret[10] # w.got)) THEN {"executed"} ELSE {})

(* On the model: a swap never costs more than offered, and paying more never *)
(* brings less.                                                              *)
QuoteSound(s) ==
  (s.m.open = 1 /\ s.m.ooadm = 0) =>
    \A sd \in {Bid, Ask} :
      LET amts == <<0, 9, 40, 100, 130, 250, 430, 1000>>
          w == [k \in DOMAIN amts |-> Swap(s, [op |-> "quote", sd |-> sd, sg |-> 5, amt |-> amts[k]])]
      IN /\ \A k \in DOMAIN amts : w[k].paid <= amts[k] /\ w[k].paid >= 0
         /\ \A k \in DOMAIN amts : k > 1 => (w[k].got >= w[k - 1].got /\ w[k].paid >= w[k - 1].paid)
=============================================================================
