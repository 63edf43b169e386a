----------------------------- MODULE MarketInv ------------------------------
(* What holds in every state of a market, as predicates on a state. They are *)
(* checked on the model (MarketMC) and on states read from the program       *)
(* (MarketTrace).                                                            *)
EXTENDS Market

LOCAL Sum(l) == FoldSeq(LAMBDA x, acc : x + acc, 0, l)
LOCAL Map(l, f(_)) == [i \in 1..Len(l) |-> f(l[i])]

Fills(s) == SelectSeq(s.heap, LAMBDA e : e.ty = 0)
Outs(s) == SelectSeq(s.heap, LAMBDA e : e.ty = 1)

-----------------------------------------------------------------------------
(* C01: the vaults hold exactly what is owed *)

(* what an unprocessed fill still changes in the sum of all claims *)
QuotePending(m, e) ==
  LET quote == e.q * e.px * m.qls
      rebate == IF e.own = e.tk THEN 0 ELSE MakerRebate(m, quote)
  IN IF e.sd = Bid THEN quote + rebate ELSE rebate - quote
BasePending(m, e) == IF e.sd = Bid THEN -(e.q * m.bls) ELSE e.q * m.bls

QuoteOwed(s) ==
  Sum(Map(s.oos, LAMBDA o : o.qf + o.bq * s.m.qls + o.lf + o.rr)) + s.m.favail
  + Sum(Map(Fills(s), LAMBDA e : QuotePending(s.m, e)))
BaseOwed(s) ==
  Sum(Map(s.oos, LAMBDA o : o.bf + o.ab * s.m.bls))
  + Sum(Map(Fills(s), LAMBDA e : BasePending(s.m, e)))

Solvent(s) == s.m.open = 1 => /\ s.vb = s.m.bdt /\ s.vq = s.m.qdt
                              /\ s.m.bdt = BaseOwed(s) /\ s.m.qdt = QuoteOwed(s)

(* the fee counters agree with each other *)
RebatesAccrued(s) == s.m.open = 1 => s.m.rracc = Sum(Map(s.oos, LAMBDA o : o.rr))

-----------------------------------------------------------------------------
(* C11: book, slots, positions *)

(* events that will empty slot x of account i *)
Closing(s, i, x) ==
  SelectSeq(s.heap, LAMBDA e : e.own = i /\ e.slot = x.s /\ e.out = 1)

Listed(s, side) ==
  \A o \in Range(Side(s, side)) :
    /\ o.own \in 1..Len(s.oos)
    /\ Cardinality({x \in Range(s.oos[o.own].oo) : x.seq = o.seq /\ x.pd = o.pd /\ x.sd = side}) = 1
    /\ \E x \in Range(s.oos[o.own].oo) :
         x.s = o.slot /\ x.seq = o.seq /\ x.pd = o.pd /\ x.sd = side /\ x.tr = o.pg /\ x.cid = o.cid

OnBookExactly(s, i, x) ==
  \E o \in Range(Side(s, x.sd)) : o.seq = x.seq /\ o.pd = x.pd /\ o.pg = x.tr /\ o.own = i /\ o.slot = x.s

SlotsAccounted(s) ==
  \A i \in 1..Len(s.oos) : \A x \in Range(s.oos[i].oo) :
    IF OnBookExactly(s, i, x) THEN Closing(s, i, x) = <<>> ELSE Len(Closing(s, i, x)) = 1

(* the price an order locks at: the limit of a pegged bid *)
LockOf(side, o) == IF o.pg = 1 /\ side = Bid THEN o.plim ELSE o.pd

LotsMatch(s) ==
  LET fills == Fills(s)
      outs == Outs(s)
  IN \A i \in 1..Len(s.oos) :
    LET oo == s.oos[i]
        b == SelectSeq(s.bids, LAMBDA o : o.own = i)
        k == SelectSeq(s.asks, LAMBDA o : o.own = i)
        fb == SelectSeq(fills, LAMBDA e : e.own = i /\ e.sd = Ask)
        fa == SelectSeq(fills, LAMBDA e : e.own = i /\ e.sd = Bid)
        ob == SelectSeq(outs, LAMBDA e : e.own = i /\ e.sd = Bid)
        oa == SelectSeq(outs, LAMBDA e : e.own = i /\ e.sd = Ask)
        lp(e) == LET l == SlotOf(oo, e.slot) IN IF l = <<>> THEN 0 ELSE l[1].lp
    IN /\ oo.bb = Sum(Map(b, LAMBDA o : o.q)) + Sum(Map(fb, LAMBDA e : e.q)) + Sum(Map(ob, LAMBDA e : e.q))
       /\ oo.ab = Sum(Map(k, LAMBDA o : o.q)) + Sum(Map(fa, LAMBDA e : e.q)) + Sum(Map(oa, LAMBDA e : e.q))
       /\ oo.bq = Sum(Map(b, LAMBDA o : o.q * LockOf(Bid, o)))
                  + Sum(Map(fb, LAMBDA e : e.q * (IF e.plim # -1 THEN e.plim ELSE e.px)))
                  + Sum(Map(ob, LAMBDA e : e.q * lp(e)))

SeqsFresh(s) ==
  LET l == s.bids \o s.asks
  IN /\ Cardinality({o.seq : o \in Range(l)}) = Len(l)
     /\ \A o \in Range(l) : o.seq <= s.m.seq

Coherent(s) ==
  s.m.open = 1 => Listed(s, Bid) /\ Listed(s, Ask) /\ SlotsAccounted(s) /\ LotsMatch(s) /\ SeqsFresh(s)

(* orders new on the book carry numbers never used before *)
FreshIds(pre, post) ==
  LET was == {o.seq : o \in Range(pre.bids \o pre.asks)}
  IN \A o \in Range(post.bids \o post.asks) : o.seq \in was \/ o.seq > pre.m.seq

-----------------------------------------------------------------------------
(* Sound balances *)

NoDebts(s) == /\ s.vb >= 0 /\ s.vq >= 0
              /\ \A i \in 1..Len(s.oos) : NonNeg(s.oos[i]) /\ s.oos[i].bb >= 0 /\ s.oos[i].ab >= 0 /\ s.oos[i].bq >= 0

(* book sorted the way it is walked *)
Sorted(s) ==
  \A side \in {Bid, Ask} :
    LET l == Side(s, side)
    IN \A i \in 1..(Len(l) - 1) :
         \/ l[i].pg < l[i + 1].pg
         \/ l[i].pg = l[i + 1].pg /\ Before(side, l[i], l[i + 1])
=============================================================================
