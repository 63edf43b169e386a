----------------------------- MODULE MarketProps ----------------------------
(* What every accepted action guarantees, stated on the states around it     *)
(* without reference to how Market computes them. Checked on all transitions *)
(* of the bounded model and on executions of the program.                    *)
EXTENDS MarketInv

LOCAL Sum(l) == FoldSeq(LAMBDA x, acc : x + acc, 0, l)
LOCAL SumOver(l, f(_)) == Sum([i \in 1..Len(l) |-> f(l[i])])

-----------------------------------------------------------------------------
(* One incoming order: place or take *)

Single(a) == a.op \in {"place", "take"}
IsPegged(a) == a.op = "place" /\ a.pg = 1
(* orders that expired before they arrived do nothing *)
Void(pre, a) == a.op = "place" /\ a.exp # 0 /\ a.exp <= pre.t

Opposing(pre, a) == Ranked(Other(a.sd), Side(pre, Other(a.sd)), OraclePrice(pre))

(* what is left of order o after the action *)
Left(post, side, o) ==
  LET l == SelectSeq(Side(post, side), LAMBDA x : x.seq = o.seq)
  IN IF l = <<>> THEN 0 ELSE l[1].q

LimitOf(pre, a) == IF IsPegged(a) THEN OraclePrice(pre) + a.px ELSE a.px
Unlimited(a) == ~IsPegged(a) /\ a.ty = MarketOrder

(* the opposing orders as [o, p, live, got]: got lots traded or removed *)
Met(pre, a, post) ==
  LET r == Opposing(pre, a)
  IN [i \in 1..Len(r) |-> [o |-> r[i].o, p |-> r[i].p,
        live |-> Live(Other(a.sd), r[i].o, OraclePrice(pre), pre.t),
        got |-> r[i].o.q - Left(post, Other(a.sd), r[i].o)]]

OwnCancelled(a, x) == a.op = "place" /\ x.o.own = a.oo /\ a.stp = CancelProvide
Trades(pre, a, post) ==
  SelectSeq(Met(pre, a, post), LAMBDA x : x.live /\ x.got > 0 /\ ~OwnCancelled(a, x))
SelfTrade(a, x) == a.op = "place" /\ x.o.own = a.oo

New(pre, post, side) ==
  SelectSeq(Side(post, side), LAMBDA o : o.seq > pre.m.seq)
GoneFrom(pre, post, side) ==
  SelectSeq(Side(pre, side), LAMBDA o : Left(post, side, o) = 0)

(* C02 *)
BestFirst(pre, a, post) ==
  LET r == Met(pre, a, post)
      traded(x) == x.live /\ x.got > 0 /\ ~OwnCancelled(a, x)
      last == {i \in 1..Len(r) : traded(r[i])}
      (* one more lot would have brought in more quote than a seller asked for *)
      spent(i) == SumOver(SubSeq(r, 1, i), LAMBDA x : IF traded(x) THEN x.got * x.p ELSE 0)
      sated(i) == a.sd = Ask /\ a.mq < BIG - 1 /\ a.mq - spent(i) < r[i].p
  IN /\ \A j \in last : \A i \in 1..(j - 1) : r[i].live => r[i].got = r[i].o.q \/ sated(i)
     /\ \A j \in last : Unlimited(a) \/ (a.op = "place" /\ a.ty = Slide)
                        \/ Within(a.sd, r[j].p, LimitOf(pre, a))
     /\ \A i \in 1..Len(r) : ~r[i].live => r[i].got \in {0, r[i].o.q}
     /\ Cardinality({i \in 1..Len(r) : ~r[i].live /\ r[i].got > 0}) <= MaxDrops
     /\ New(pre, post, Other(a.sd)) = <<>>
     (* orders without a price are left alone *)
     /\ \A o \in Range(Side(pre, Other(a.sd))) :
          (\A i \in 1..Len(r) : r[i].o.seq # o.seq) => Left(post, Other(a.sd), o) = o.q

TradedBase(pre, a, post) == SumOver(Trades(pre, a, post), LAMBDA x : x.got)
RestedBase(pre, a, post) == SumOver(New(pre, post, a.sd), LAMBDA o : o.q)

(* C03 *)
TypeKept(pre, a, post) ==
  LET n == New(pre, post, a.sd)
      best == BestPrice(Other(a.sd), Side(pre, Other(a.sd)), OraclePrice(pre), pre.t)
      price(o) == PriceNow(o, OraclePrice(pre))
  IN /\ Len(n) <= 1
     /\ (~IsPegged(a) /\ a.ty \in {IOC, MarketOrder, FOK}) => n = <<>>
     /\ (~IsPegged(a) /\ a.ty = FOK) => TradedBase(pre, a, post) = a.mb
     /\ a.ty \in {PostOnly, Slide} => \A x \in Range(Met(pre, a, post)) : x.live => x.got = 0
     /\ n # <<>> =>
          /\ n[1].own = a.oo /\ n[1].cid = a.cid /\ n[1].pg = a.pg /\ n[1].ts = pre.t
          /\ a.ty # Slide => price(n[1]) = LimitOf(pre, a)
          /\ (a.ty = Slide /\ best # NoPrice) => ~Within(a.sd, best, price(n[1]))
          /\ a.ty = Slide => ~Better(a.sd, price(n[1]), LimitOf(pre, a))
          /\ n[1].tif = (IF a.exp = 0 THEN 0 ELSE Min2(a.exp - pre.t, 65535))
     (* nothing kept it from trading or resting in full *)
     /\ (/\ ~IsPegged(a) /\ a.op = "place" /\ a.ty = Limit /\ a.mq >= 1000000
         /\ a.lim > Len(Side(pre, Other(a.sd))) /\ a.mb < 100)
        => TradedBase(pre, a, post) + RestedBase(pre, a, post) = a.mb

(* C04, C05 *)
ForeignQuote(pre, a, post) ==
  SumOver(Trades(pre, a, post), LAMBDA x : IF SelfTrade(a, x) THEN 0 ELSE x.got * x.p * pre.m.qls)
FeeDue(pre, a, post) ==
  LET q == ForeignQuote(pre, a, post) IN IF q = 0 THEN 0 ELSE TakerFee(pre.m, q)
RebatesDue(pre, a, post) ==
  SumOver(Trades(pre, a, post),
          LAMBDA x : IF SelfTrade(a, x) THEN 0 ELSE MakerRebate(pre.m, x.got * x.p * pre.m.qls))

LockedBy(pre, o, side) == o.q * LockOf(side, o) * pre.m.qls

NeedQuote(pre, a, post) ==
  SumOver(Trades(pre, a, post), LAMBDA x : x.got * x.p * pre.m.qls)
  + (IF a.op = "take" THEN RebatesDue(pre, a, post) ELSE FeeDue(pre, a, post))
  + SumOver(New(pre, post, Bid), LAMBDA o : LockedBy(pre, o, Bid) + MakerLock(pre.m, LockedBy(pre, o, Bid)))
NeedBase(pre, a, post) == (TradedBase(pre, a, post) + RestedBase(pre, a, post)) * pre.m.bls

(* given back at once to the account by making room on its own side *)
Regained(pre, a, post) ==
  SumOver(SelectSeq(GoneFrom(pre, post, a.sd), LAMBDA o : o.own = a.oo),
          LAMBDA o : IF a.sd = Ask THEN o.q * pre.m.bls
                     ELSE LockedBy(pre, o, Bid) + MakerLock(pre.m, LockedBy(pre, o, Bid)))

WithinLimits(pre, a, post) ==
  /\ TradedBase(pre, a, post) + RestedBase(pre, a, post) <= a.mb
  /\ (a.sd = Bid /\ a.mq < 1000000)
     => NeedQuote(pre, a, post) <= a.mq * pre.m.qls
  /\ (a.sd = Ask /\ a.mq < 1000000)
     => SumOver(Trades(pre, a, post), LAMBDA x : x.got * x.p) <= a.mq

PaidExactly(pre, a, post) ==
  IF a.op = "take"
  THEN IF a.sd = Bid
       THEN /\ post.wq[a.sg] = pre.wq[a.sg] - NeedQuote(pre, a, post)
            /\ post.wb[a.sg] = pre.wb[a.sg] + TradedBase(pre, a, post) * pre.m.bls
       ELSE /\ post.wb[a.sg] = pre.wb[a.sg] - TradedBase(pre, a, post) * pre.m.bls
            /\ post.wq[a.sg] = pre.wq[a.sg] - RebatesDue(pre, a, post)
                 + SumOver(Trades(pre, a, post), LAMBDA x : x.got * x.p * pre.m.qls)
  ELSE IF a.sd = Bid
       THEN /\ post.wq[a.sg] = pre.wq[a.sg] - Max2(0, NeedQuote(pre, a, post)
                                 - pre.oos[a.oo].qf - Regained(pre, a, post))
            /\ post.wb = pre.wb
       ELSE /\ post.wb[a.sg] = pre.wb[a.sg] - Max2(0, NeedBase(pre, a, post)
                                 - pre.oos[a.oo].bf - Regained(pre, a, post))
            /\ post.wq = pre.wq

OnlyWallet(pre, a, post) ==
  \A p \in DOMAIN pre.wb : p # a.sg => pre.wb[p] = post.wb[p] /\ pre.wq[p] = post.wq[p]

FeesExact(pre, a, post) ==
  LET fee == FeeDue(pre, a, post)
      reb == RebatesDue(pre, a, post)
  IN IF a.op = "take"
     THEN a.rem = <<>> => post.m.rracc = pre.m.rracc
     ELSE a.rem = <<>> => /\ post.oos[a.oo].rr - pre.oos[a.oo].rr = fee - reb
                          /\ post.m.rracc - pre.m.rracc = fee - reb
                          /\ post.m.facc - pre.m.facc = fee - reb
                          /\ post.m.favail = pre.m.favail

-----------------------------------------------------------------------------
(* C10: events *)

(* the state without penalties and positions in the queue *)
Balances(s) == [m |-> s.m, oos |-> s.oos, vb |-> s.vb, vq |-> s.vq, bids |-> s.bids, asks |-> s.asks]

AllEvents(s, l) ==
  FoldLeft(LAMBDA acc, e : LET r == ApplyEvent(acc.s, e) IN [ok |-> acc.ok /\ r.ok, s |-> r.s],
           [ok |-> TRUE, s |-> s], l)

(* whatever the order in which queued events are processed, the outcome is the same *)
Confluent(s) ==
  LET e == IF Len(s.heap) > 40 THEN SubSeq(s.heap, Len(s.heap) - 11, Len(s.heap)) ELSE s.heap   \* of many, the newest
      fwd == AllEvents(s, e)
      swapped(i) == SubSeq(e, 1, i - 1) \o <<e[i + 1], e[i]>> \o SubSeq(e, i + 2, Len(e))
  IN (s.m.open = 1 /\ Len(e) > 0) =>
     /\ fwd.ok
     /\ \A i \in 1..(Len(e) - 1) :
          LET r == AllEvents(s, swapped(i)) IN r.ok /\ Balances(r.s) = Balances(fwd.s)
     /\ LET r == AllEvents(s, Reverse(e)) IN r.ok /\ Balances(r.s) = Balances(fwd.s)

EventsKept(pre, a, post) ==
  IF a.op \in {"consume", "consumeg"}
  THEN LET gone == SelectSeq(pre.heap, LAMBDA e : \A x \in Range(post.heap) : x.sl # e.sl)
       IN /\ Len(gone) <= MaxConsume
          /\ \A e \in Range(gone) : e.own \in RemSet(a)
          /\ post.heap = SelectSeq(pre.heap, LAMBDA e : \A g \in Range(gone) : g.sl # e.sl)
  ELSE SubSeq(post.heap, 1, Min2(Len(pre.heap), Len(post.heap))) = pre.heap

-----------------------------------------------------------------------------
(* C12: cancelling *)

CancelExact(pre, a, post) ==
  LET goneB == GoneFrom(pre, post, Bid)
      goneA == GoneFrom(pre, post, Ask)
      back(o) == LockedBy(pre, o, Bid) + MakerLock(pre.m, LockedBy(pre, o, Bid))
      named(o, side) ==
        CASE a.op = "cancel" -> o.seq = a.seq /\ side = a.sd
          [] a.op = "ccid" -> o.cid = a.cid
          [] a.op = "call" -> a.sd = -1 \/ a.sd = side
          [] OTHER -> TRUE
      oo == pre.oos[a.oo]
  IN /\ \A o \in Range(goneB) : o.own = a.oo /\ named(o, Bid)
     /\ \A o \in Range(goneA) : o.own = a.oo /\ named(o, Ask)
     /\ Len(post.bids) + Len(goneB) = Len(pre.bids)
     /\ Len(post.asks) + Len(goneA) = Len(pre.asks)
     /\ post.oos[a.oo].qf = oo.qf + SumOver(goneB, back)
     /\ post.oos[a.oo].bf = oo.bf + SumOver(goneA, LAMBDA o : o.q * pre.m.bls)
     /\ \A i \in DOMAIN pre.oos : i # a.oo => post.oos[i] = pre.oos[i]
     /\ post.heap = pre.heap /\ post.vb = pre.vb /\ post.vq = pre.vq
     /\ post.wb = pre.wb /\ post.wq = pre.wq
     (* nothing named is left, unless the limit was reached *)
     /\ (a.op = "ccid" \/ (a.op \in {"call", "prune"} /\ a.lim >= SlotCap))
        => /\ \A o \in Range(post.bids) : ~(o.own = a.oo /\ named(o, Bid))
           /\ \A o \in Range(post.asks) : ~(o.own = a.oo /\ named(o, Ask))

-----------------------------------------------------------------------------
(* C14: settling *)

SettleExact(pre, a, post) ==
  LET oo == pre.oos[a.oo]
      residue == IF pre.m.mf > 0 /\ oo.bb = 0 THEN oo.lf ELSE 0
      reb == oo.rr + residue
      sum(l) == SumOver(l, LAMBDA x : x)
  IN /\ post.oos[a.oo].bf = 0 /\ post.oos[a.oo].qf = 0 /\ post.oos[a.oo].rr = 0
     /\ post.oos[a.oo].oo = oo.oo /\ post.bids = pre.bids /\ post.asks = pre.asks /\ post.heap = pre.heap
     /\ pre.vb - post.vb = oo.bf
     /\ pre.vq - post.vq = oo.qf + (IF a.ref # 0 THEN reb ELSE 0)
     /\ post.m.favail - pre.m.favail = (IF a.ref # 0 THEN 0 ELSE reb)
     /\ post.m.fref - pre.m.fref = (IF a.ref # 0 THEN reb ELSE 0)
     /\ post.wb[a.db] = pre.wb[a.db] + oo.bf
     /\ sum(post.wq) = sum(pre.wq) + oo.qf + (IF a.ref # 0 THEN reb ELSE 0)
     /\ \A i \in DOMAIN pre.oos : i # a.oo => post.oos[i] = pre.oos[i]

DepositExact(pre, a, post) ==
  LET b == pre.wb[a.sg] - post.wb[a.sg]
      q == pre.wq[a.sg] - post.wq[a.sg]
  IN /\ b >= 0 /\ q >= 0
     /\ post.oos[a.oo].bf = pre.oos[a.oo].bf + b /\ post.oos[a.oo].qf = pre.oos[a.oo].qf + q
     /\ post.vb = pre.vb + b /\ post.vq = pre.vq + q
     /\ a.op = "deposit" => b = a.b /\ q = a.q
     /\ a.op = "refill" => /\ post.oos[a.oo].bf = Max2(a.b, pre.oos[a.oo].bf)
                           /\ post.oos[a.oo].qf = Max2(a.q, pre.oos[a.oo].qf)

-----------------------------------------------------------------------------
(* C15 *)
NotWhenExpired == {"place", "take", "multi", "deposit", "refill"}
NothingAdded(pre, post) ==
  /\ New(pre, post, Bid) = <<>> /\ New(pre, post, Ask) = <<>> /\ Len(post.heap) <= Len(pre.heap)
  /\ \A p \in DOMAIN pre.wb : post.wb[p] >= pre.wb[p] /\ post.wq[p] >= pre.wq[p]

(* C17: self-trades *)
SelfRule(pre, a, post) ==
  LET own == SelectSeq(Met(pre, a, post), LAMBDA x : x.live /\ x.got > 0 /\ x.o.own = a.oo)
      ev == SubSeq(post.heap, Len(pre.heap) + 1, Len(post.heap))
      selfEv == SelectSeq(ev, LAMBDA e : e.ty = 0 /\ e.own = e.tk)
  IN IF a.op = "take" THEN selfEv = <<>>
     ELSE /\ a.stp = Abort => own = <<>>
          /\ a.stp = CancelProvide =>
               /\ selfEv = <<>>
               /\ \A x \in Range(own) : /\ x.got = x.o.q
                                        /\ \A y \in Range(post.oos[a.oo].oo) : y.seq # x.o.seq
          /\ a.stp = Decrement =>
               SumOver(selfEv, LAMBDA e : e.q) = SumOver(own, LAMBDA x : x.got)
          /\ \A e \in Range(selfEv) : e.own = a.oo

(* C18: pegged orders *)
PegRule(pre, a, post) ==
  LET oracle == OraclePrice(pre)
  IN /\ \A x \in Range(Met(pre, a, post)) :
          (x.o.pg = 1 /\ x.got > 0 /\ x.live)
          => ~Better(Other(a.sd), x.p, x.o.plim) /\ x.p = oracle + x.o.pd
     /\ \A o \in Range(New(pre, post, a.sd)) :
          o.pg = 1 => ~Better(a.sd, oracle + o.pd, o.plim) /\ o.plim = a.plim
     /\ \A e \in Range(SubSeq(post.heap, Len(pre.heap) + 1, Len(post.heap))) :
          (e.ty = 0 /\ e.plim # -1) => ~Better(Other(e.sd), e.px, e.plim)
     /\ oracle = NoPrice =>
          \A side \in {Bid, Ask} : \A o \in Range(Side(pre, side)) :
            o.pg = 1 => Left(post, side, o) = o.q \/ OrderExpired(o, pre.t)

-----------------------------------------------------------------------------
(* C19: the same in single steps *)

(* the state without positions of events and pool usage, which single steps may choose differently *)
Plain(s) == [s EXCEPT !.heap = [i \in DOMAIN @ |-> [@[i] EXCEPT !.sl = -1]], !.hwb = 0, !.hwa = 0, !.lg = <<>>]
(* There is one penalty per instruction, and a batch uses proceeds of its later  *)
(* orders for the earlier ones: what counts is the sum of wallet and free funds. *)
Netted(s, a) ==
  LET oo == s.oos[a.oo]
  IN [Plain(s) EXCEPT !.oos[a.oo].pen = 0, !.oos[a.oo].bf = 0, !.oos[a.oo].qf = 0,
                      !.wb[a.sg] = @ + oo.bf, !.wq[a.sg] = @ + oo.qf,
                      !.vb = @ - oo.bf, !.vq = @ - oo.qf, !.m.bdt = @ - oo.bf, !.m.qdt = @ - oo.qf]

AsPlace(a, od, s) ==
  [op |-> "place", m |-> a.m, sg |-> a.sg, oo |-> a.oo, ad |-> a.ad, rem |-> a.rem, must |-> 0,
   sd |-> od.sd, pg |-> 0, px |-> od.px, plim |-> -1,
   mb |-> IF od.sd = Ask THEN (s.wb[a.sg] + s.oos[a.oo].bf) \div s.m.bls ELSE BIG - 200000,
   mq |-> IF od.sd = Bid THEN Min2(od.mq, (s.wq[a.sg] + s.oos[a.oo].qf) \div s.m.qls) ELSE od.mq,
   cid |-> od.cid, ty |-> a.ty, exp |-> od.exp, stp |-> CancelProvide, lim |-> a.lim]

MultiSteps(s, a, tie) ==
  LET ods == [i \in 1..(Len(a.bids) + Len(a.asks)) |->
                IF i <= Len(a.bids)
                THEN [sd |-> Bid, px |-> a.bids[i].px, mq |-> a.bids[i].mq, exp |-> a.bids[i].exp, cid |-> i - 1]
                ELSE LET e == a.asks[i - Len(a.bids)]
                     IN [sd |-> Ask, px |-> e.px, mq |-> e.mq, exp |-> e.exp, cid |-> i - 1]]
      s1 == IF a.can = 1 THEN CancelMany(s, a.oo, -1, -1, 255).s ELSE s
  IN FoldLeft(LAMBDA acc, od :
                IF ~acc.ok THEN acc
                ELSE LET r == Apply(acc.s, AsPlace(a, od, acc.s), tie) IN [ok |-> r.ok, s |-> r.s],
              [ok |-> TRUE, s |-> s1], ods)

SameAsSteps(pre, a, post, tie) ==
  LET r == MultiSteps(pre, a, tie)
  IN r.ok /\ Netted(r.s, a) = Netted(post, a)

EditSteps(s, a, tie) ==
  LET left == SumOver(SelectSeq(s.oos[a.oo].oo, LAMBDA x : x.cid = a.ecid /\ OnBook(s, x)),
                      LAMBDA x : OrderFor(s, x).q)
      gone == a.esz - left
      c == Apply(s, [a EXCEPT !.op = "ccid", !.cid = a.ecid], tie)
      p == Apply(c.s, [a EXCEPT !.op = "place", !.mb = @ - gone], tie)
  IN IF a.exp # 0 /\ a.exp <= s.t THEN s
     ELSE IF gone < 0 \/ a.mb <= gone THEN c.s
     ELSE p.s

-----------------------------------------------------------------------------
(* C26: what is announced is what happened *)

LogsOf(lg, kind) == SelectSeq(lg, LAMBDA x : x[1] = kind)
FillOf(x) == [sd |-> x[3], slot |-> x[4], out |-> x[5], ts |-> x[6], seq |-> x[7], own |-> x[8], mcid |-> x[9],
              mts |-> x[11], tk |-> x[12], tcid |-> x[13], px |-> x[15], q |-> x[16]]
EventOf(e) == [f \in {"sd", "slot", "out", "ts", "seq", "own", "mcid", "mts", "tk", "tcid", "px", "q"} |-> e[f]]

LogsTell(pre, a, post, lg) ==
  LET fills == [i \in DOMAIN LogsOf(lg, 2) |-> FillOf(LogsOf(lg, 2)[i])]
      gone == SelectSeq(pre.heap, LAMBDA e : e.ty = 0 /\ \A x \in Range(post.heap) : x.sl # e.sl)
      new == SelectSeq(SubSeq(post.heap, Len(pre.heap) + 1, Len(post.heap)), LAMBDA e : e.ty = 0)
      last(i) == SelectSeq(lg, LAMBDA x : x[1] = 3 /\ x[2] = post.oos[i].ow /\ x[3] = post.oos[i].num)
      pays(wp, wq) == SumOver(wq, LAMBDA x : x) - SumOver(wp, LAMBDA x : x)
  IN CASE a.op \in {"consume", "consumeg"} ->
            /\ ToSet(fills) = {EventOf(e) : e \in ToSet(gone)} /\ Len(fills) = Len(gone)
            /\ \A i \in DOMAIN post.oos :
                 (\E e \in ToSet(gone) : e.own = i) <=> last(i) # <<>>
            /\ Len(lg) = 2 * Len(gone)
       [] a.op \in PlaceOps ->
            LET sigs == LogsOf(lg, 1)
                totals == LogsOf(lg, 4)
            IN \* each trade is announced, whether it reached its maker at once or is queued
               /\ Len(sigs) = Len(fills) + Len(new)
               /\ Len(totals) > 0 <=> Len(sigs) > 0
               /\ (a.op # "multi" => Len(totals) <= 1)
               /\ \A f \in ToSet(fills) : f.own \in RemSet(a) /\ f.ts = pre.t
               /\ (a.op = "take" /\ totals # <<>>) =>
                     LET base == (SumOver(new, LAMBDA e : e.q) + SumOver(fills, LAMBDA f : f.q)) * pre.m.bls
                     IN (IF a.sd = Bid THEN totals[1][5] ELSE totals[1][4]) = base
                        /\ pays(pre.wb, post.wb) = IF a.sd = Bid THEN base ELSE -base
       [] a.op \in {"deposit", "refill"} ->
            IF pays(pre.wb, post.wb) = 0 /\ pays(pre.wq, post.wq) = 0 THEN lg = <<>>
            ELSE lg = <<DepositLog(a.oo, a.sg, -pays(pre.wb, post.wb), -pays(pre.wq, post.wq))>>
       [] a.op \in {"settle", "settlex"} ->
            /\ Len(lg) = 1 /\ lg[1][1] = 6 /\ lg[1][2] = a.oo /\ lg[1][6] = a.ref
            /\ lg[1][3] = pays(pre.wb, post.wb)
            /\ lg[1][4] + (IF a.ref = 0 THEN 0 ELSE lg[1][5]) = pays(pre.wq, post.wq)
            /\ lg[1][5] = (post.m.fref - pre.m.fref) + (post.m.favail - pre.m.favail)
       [] a.op = "sweep" -> lg = <<SweepLog(pays(pre.wq, post.wq), a.dq)>>
       [] a.op = "setdel" -> lg = <<DelegateLog(a.oo, post.oos[a.oo].dl)>>
       [] OTHER -> lg = <<>>

-----------------------------------------------------------------------------
(* C23: from here everything can be taken out *)

Act(o) == o @@ [m |-> 0, sg |-> 1, oo |-> 0, ad |-> 0, rem |-> <<>>, must |-> 1]

RECURSIVE DrainEvents(_, _)
DrainEvents(s, n) ==
  IF s.heap = <<>> \/ n = 0 THEN s
  ELSE LET r == Apply(s, Act([op |-> "consume", ad |-> s.m.ceadm, lim |-> 8,
                              rem |-> [i \in 1..Len(s.oos) |-> i]]), <<>>)
       IN IF r.ok THEN DrainEvents(r.s, n - 1) ELSE s

Steps(s, acts) ==
  FoldLeft(LAMBDA acc, a : IF ~acc.ok THEN acc
                           ELSE LET r == Apply(acc.s, a, <<>>) IN [ok |-> r.ok, s |-> r.s],
           [ok |-> TRUE, s |-> s], acts)

CanWindDown(s) ==
  LET live == SelectSeq([i \in 1..Len(s.oos) |-> i], LAMBDA i : s.oos[i].ex = 1)
      for(f(_)) == [k \in 1..Len(live) |-> f(live[k])]
      s1 == IF Expired(s) THEN [ok |-> TRUE, s |-> s]
            ELSE Apply(s, Act([op |-> "setexp", ad |-> s.m.cmadm]), <<>>)
      s2 == Steps(s1.s, for(LAMBDA i : Act([op |-> "prune", oo |-> i, ad |-> s.m.cmadm, lim |-> 255])))
      s3 == DrainEvents(s2.s, 100)
      s4 == Steps(s3, for(LAMBDA i : Act([op |-> "settle", oo |-> i, sg |-> s.oos[i].ow, db |-> s.oos[i].ow,
                                          dq |-> s.oos[i].ow, ref |-> 0])))
      s5 == Apply(s4.s, Act([op |-> "sweep", ad |-> s.m.feeadm, dq |-> 6]), <<>>)
      s6 == Steps(s5.s, for(LAMBDA i : Act([op |-> "closeooa", oo |-> i, sg |-> s.oos[i].ow])))
      s7 == Apply(s6.s, Act([op |-> "closem", ad |-> s.m.cmadm]), <<>>)
  IN (s.m.open = 1 /\ s.m.cmadm # 0) =>
     /\ s1.ok /\ s2.ok /\ s3.heap = <<>> /\ s4.ok /\ s5.ok /\ s6.ok /\ s7.ok
     /\ s7.s.vb = 0 /\ s7.s.vq = 0

-----------------------------------------------------------------------------
(* The rules of property p that the accepted action a breaks *)

Breaks(p, pre, a, post, tie) ==
  LET single == Single(a) /\ ~Void(pre, a)
      rule(q, on, name, holds) == IF (p = q \/ p = "ALL") /\ on /\ ~holds THEN {name} ELSE {}
  IN rule("C02", single, "best-first", BestFirst(pre, a, post))
     \cup rule("C03", single, "order-type", TypeKept(pre, a, post))
     \cup rule("C03", Single(a) /\ Void(pre, a), "void-order", pre = post)
     \cup rule("C04", single, "limits", WithinLimits(pre, a, post))
     \cup rule("C04", single, "payment", PaidExactly(pre, a, post) /\ OnlyWallet(pre, a, post))
     \cup rule("C05", single, "fees", FeesExact(pre, a, post))
     \cup rule("C05", single, "fee-payment", PaidExactly(pre, a, post))
     \cup rule("C10", pre.m.open = 1, "events-kept", EventsKept(pre, a, post))
     \cup rule("C12", a.op \in {"cancel", "ccid", "call", "prune"}, "cancel", CancelExact(pre, a, post))
     \cup rule("C14", a.op \in {"settle", "settlex"}, "settle", SettleExact(pre, a, post))
     \cup rule("C14", a.op \in {"deposit", "refill"}, "deposit", DepositExact(pre, a, post))
     \cup rule("C15", a.op \in NotWhenExpired /\ ~Void(pre, a), "expired-market", ~Expired(pre))
     \cup rule("C15", Expired(pre), "growing", NothingAdded(pre, post))
     \cup rule("C15", a.op \in {"prune", "settlex", "closem"}, "not-expired", Expired(pre))
     \cup rule("C15", a.op = "closem", "not-empty",
               pre.vb = 0 /\ pre.vq = 0 /\ pre.bids = <<>> /\ pre.asks = <<>> /\ pre.heap = <<>>)
     \cup rule("C17", single, "self-trade", SelfRule(pre, a, post))
     \cup rule("C18", single, "peg", PegRule(pre, a, post))
     \cup rule("C19", a.op = "multi", "batch", SameAsSteps(pre, a, post, tie))
     \cup rule("C19", a.op = "edit", "edit", Plain(EditSteps(pre, a, tie)) = Plain(post))
=============================================================================
