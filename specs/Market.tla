------------------------------- MODULE Market -------------------------------
(* The behaviour of one openbook market as a function from a state and an    *)
(* action to an outcome.                                                     *)
(*                                                                           *)
(* State (a record, the same shape the harness reads from the accounts):     *)
(*   t, sl       clock: seconds and slot                                     *)
(*   orc         oracles: n how many, pa/pb prices, sa/sb slots of update    *)
(*   m           the market account                                          *)
(*   bids, asks  resting orders: fixed ones best to worst, then pegged ones  *)
(*   heap        queued events in order                                      *)
(*   oos         open orders accounts                                        *)
(*   hwb, hwa    the most nodes either side's pool ever used                 *)
(*   vb, vq      vault balances     wb, wq  wallets by person                *)
(*   lg          what the instruction being executed has announced so far    *)
(* An action is a record with field op; an outcome is [ok, s, ret].          *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, Fees

BIG == 2147483647        \* stands for the largest representable number
INFQ == 999999999        \* a quote amount no order of the model exhausts
NoPrice == -1
HeapCap == 600
SlotCap == 24
TreeCap == 1024
MaxDrops == 5
MaxDirectFills == 15
MaxConsume == 8
Penalty == 500

Bid == 0
Ask == 1
Limit == 0
IOC == 1
PostOnly == 2
MarketOrder == 3
Slide == 4
FOK == 5
Decrement == 0
CancelProvide == 1
Abort == 2

Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
Other(side) == 1 - side
(* a is a better price than b for orders resting on this side *)
Better(side, a, b) == IF side = Bid THEN a > b ELSE a < b
Within(side, price, limit) == IF side = Bid THEN price <= limit ELSE price >= limit

Fail(s) == [ok |-> FALSE, s |-> s, ret |-> 0]
Done(s, ret) == [ok |-> TRUE, s |-> s, ret |-> ret]

-----------------------------------------------------------------------------
(* The market's clock and oracle *)

Expired(s) == s.m.exp # 0 /\ s.m.exp < s.t

(* age in slots; an oracle that never recorded a slot is never stale *)
Stale(s, slot) == s.m.stale >= 0 /\ slot # 0 /\ slot + s.m.stale < s.sl

OraclePrice(s) ==
  CASE s.orc.n = 0 -> NoPrice
    [] s.orc.n = 1 ->
         IF Stale(s, s.orc.sa) THEN NoPrice
         ELSE (s.orc.pa * s.m.bls) \div s.m.qls
    [] OTHER ->
         IF Stale(s, s.orc.sa) \/ Stale(s, s.orc.sb) THEN NoPrice
         ELSE (s.orc.pa * s.m.bls) \div (s.orc.pb * s.m.qls)

-----------------------------------------------------------------------------
(* One side of the book *)

Side(s, side) == IF side = Bid THEN s.bids ELSE s.asks
SetSide(s, side, l) == IF side = Bid THEN [s EXCEPT !.bids = l] ELSE [s EXCEPT !.asks = l]

OrderExpired(o, t) == o.tif > 0 /\ t >= o.ts + o.tif

(* Orders of one tree: better price first, then the older one. *)
Before(side, a, b) == Better(side, a.pd, b.pd) \/ (a.pd = b.pd /\ a.seq < b.seq)

Fixed(l) == SelectSeq(l, LAMBDA o : o.pg = 0)
Pegged(l) == SelectSeq(l, LAMBDA o : o.pg = 1)

LOCAL InsertSorted(side, l, o) ==
  LET front == SelectSeq(l, LAMBDA x : Before(side, x, o))
      back == SelectSeq(l, LAMBDA x : ~Before(side, x, o))
  IN front \o <<o>> \o back

InsertLeaf(side, l, o) ==
  IF o.pg = 0 THEN InsertSorted(side, Fixed(l), o) \o Pegged(l)
  ELSE Fixed(l) \o InsertSorted(side, Pegged(l), o)

Without(l, seqs) == SelectSeq(l, LAMBDA o : o.seq \notin seqs)

(* saturating *)
PegPrice(oracle, offset) == IF oracle >= 0 /\ offset > BIG - oracle THEN BIG ELSE oracle + offset
PriceNow(o, oracle) == IF o.pg = 0 THEN o.pd ELSE PegPrice(oracle, o.pd)
Representable(p) == p >= 1 /\ p < BIG
(* the pegged price has moved past the limit the owner set *)
PastLimit(side, o, oracle) ==
  o.pg = 1 /\ o.plim # -1 /\ Better(side, PegPrice(oracle, o.pd), o.plim)

Live(side, o, oracle, t) == ~OrderExpired(o, t) /\ ~PastLimit(side, o, oracle)

(* Every order that has a price right now with that price, best first, oldest first. *)
Ranked(side, l, oracle) ==
  LET seen == SelectSeq(l, LAMBDA o : o.pg = 0 \/ (oracle # NoPrice /\ Representable(PegPrice(oracle, o.pd))))
      w == [i \in 1..Len(seen) |-> [o |-> seen[i], p |-> PriceNow(seen[i], oracle)]]
  IN IF \A i \in 1..Len(seen) : seen[i].pg = 0 THEN w
     ELSE SortSeq(w, LAMBDA a, b : Better(side, a.p, b.p) \/ (a.p = b.p /\ a.o.seq < b.o.seq))

BestPrice(side, l, oracle, t) ==
  LET r == SelectSeq(Ranked(side, l, oracle),
                     LAMBDA x : ~OrderExpired(x.o, t) /\ ~PastLimit(side, x.o, oracle))
  IN IF r = <<>> THEN NoPrice ELSE r[1].p

(* The order given up when room is made: the soonest to expire, strictly     *)
(* before now, of the same kind if there is one.                             *)
LOCAL Due(l, t) == {i \in 1..Len(l) : l[i].tif > 0 /\ l[i].ts + l[i].tif < t}
(* Ties are broken by the shape of the tree, so the spec leaves them open:   *)
(* tie lists orders (by seq), those preferred among equals first.            *)
ExpiredCandidates(l, pg, t) ==
  LET due(g) == {i \in Due(l, t) : l[i].pg = g}
      pick == IF due(pg) # {} THEN due(pg) ELSE due(1 - pg)
      exps == {l[i].ts + l[i].tif : i \in pick}
  IN {i \in pick : \A e \in exps : l[i].ts + l[i].tif <= e}

(* Node pool: n orders in a tree need 2n-1 nodes, two trees share the pool.  *)
LOCAL NodesOf(n) == IF n = 0 THEN 0 ELSE 2 * n - 1
NodesUsed(l) ==
  LET f == Cardinality({i \in 1..Len(l) : l[i].pg = 0}) IN NodesOf(f) + NodesOf(Len(l) - f)
(* hw: the most nodes ever in use *)
Full(l, hw) == hw >= TreeCap - 1 /\ hw - NodesUsed(l) <= 1
HW(s, side) == IF side = Bid THEN s.hwb ELSE s.hwa

AddLeaf(s, side, o) ==
  LET l == InsertLeaf(side, Side(s, side), o)
  IN IF side = Bid THEN [s EXCEPT !.bids = l, !.hwb = Max2(@, NodesUsed(l))]
     ELSE [s EXCEPT !.asks = l, !.hwa = Max2(@, NodesUsed(l))]

(* The overall worst order: its current price clamped into what prices can be. *)
WorstOf(side, l, oracle) ==
  LET f == Fixed(l)
      p == IF oracle = NoPrice THEN <<>> ELSE Pegged(l)
      wf == f[Len(f)]
      wp == p[Len(p)]
      pp == Max2(PegPrice(oracle, wp.pd), 1)
      fixedBetter == Better(side, wf.pd, pp) \/ (wf.pd = pp /\ wf.seq < wp.seq)
  IN CASE f = <<>> /\ p = <<>> -> [has |-> FALSE]
       [] p = <<>> -> [has |-> TRUE, o |-> wf, p |-> wf.pd]
       [] f = <<>> -> [has |-> TRUE, o |-> wp, p |-> pp]
       [] OTHER -> IF fixedBetter THEN [has |-> TRUE, o |-> wp, p |-> pp]
                   ELSE [has |-> TRUE, o |-> wf, p |-> wf.pd]

-----------------------------------------------------------------------------
(* Open orders accounts *)

SlotOf(oo, slot) == SelectSeq(oo.oo, LAMBDA x : x.s = slot)
DropSlot(oo, slot) == [oo EXCEPT !.oo = SelectSeq(oo.oo, LAMBDA x : x.s # slot)]

(* The unfilled part of an order goes back to the free balance. *)
Refund(m, oo, slot, qty) ==
  LET x == SlotOf(oo, slot)[1]
      quote == qty * x.lp * m.qls
      fee == MakerLock(m, quote)
      d == DropSlot(oo, slot)
  IN IF x.sd = Bid
     THEN [d EXCEPT !.qf = @ + quote + fee, !.lf = @ - fee,
                    !.bb = @ - qty, !.bq = @ - qty * x.lp]
     ELSE [d EXCEPT !.bf = @ + qty * m.bls, !.ab = @ - qty]

CanRefund(oo, slot) == SlotOf(oo, slot) # <<>>

(* A fill reaches its maker. ev.sd is the taker's side. *)
Credit(m, oo, ev) ==
  LET self == ev.own = ev.tk
      side == Other(ev.sd)
      quote == ev.q * ev.px * m.qls
      fee == IF self THEN 0 ELSE MakerFee(m, quote)
      rebate == IF self THEN 0 ELSE MakerRebate(m, quote)
      lockPrice == IF ev.plim # -1 /\ side = Bid THEN ev.plim ELSE ev.px
      lockQuote == ev.q * lockPrice * m.qls
      lockFee == MakerFee(m, lockQuote)
      oo1 == IF side = Bid
             THEN [oo EXCEPT !.bf = @ + ev.q * m.bls,
                             !.qf = @ + rebate + (lockQuote - quote) + (lockFee - fee),
                             !.lf = @ - lockFee,
                             !.bb = @ - ev.q, !.bq = @ - ev.q * lockPrice]
             ELSE [oo EXCEPT !.qf = @ + quote + rebate - fee, !.ab = @ - ev.q]
      oo2 == [oo1 EXCEPT !.mv = @ + quote, !.rr = @ + fee]
  IN [m |-> [m EXCEPT !.rracc = @ + fee, !.mvol = @ + quote, !.facc = @ + fee],
      oo |-> IF ev.out = 1 THEN DropSlot(oo2, ev.slot) ELSE oo2]

NonNeg(oo) == /\ oo.bf >= 0 /\ oo.qf >= 0 /\ oo.lf >= 0 /\ oo.rr >= 0

FreeSlots(oo) == (0..(SlotCap - 1)) \ {oo.oo[i].s : i \in 1..Len(oo.oo)}
LowestFree(oo) == CHOOSE x \in FreeSlots(oo) : \A y \in FreeSlots(oo) : x <= y

LOCAL AddSlot(l, x) == SelectSeq(l, LAMBDA y : y.s < x.s) \o <<x>> \o SelectSeq(l, LAMBDA y : y.s > x.s)

-----------------------------------------------------------------------------
(* Events *)

FillEv(side, o, price, qty, t, seq, taker, tcid) ==
  [sl |-> -1, ty |-> 0, sd |-> side, out |-> IF o.q = qty THEN 1 ELSE 0, slot |-> o.slot, ts |-> t,
   seq |-> seq, own |-> o.own, mts |-> o.ts, tk |-> taker, tcid |-> tcid, px |-> price,
   plim |-> o.plim, q |-> qty, mcid |-> o.cid]

OutEv(side, o, t) ==
  [sl |-> -1, ty |-> 1, sd |-> side, out |-> 1, slot |-> o.slot, ts |-> t, seq |-> 0, own |-> o.own,
   mts |-> 0, tk |-> 0, tcid |-> 0, px |-> 0, plim |-> 0, q |-> o.q, mcid |-> 0]

(* What is announced. The first number is the kind of log. *)
SigLog(seq) == <<1, 0, seq>>
FillLog(m, ev) ==
  LET quote == ev.q * ev.px * m.qls
      self == ev.own = ev.tk
  IN <<2, 0, ev.sd, ev.slot, ev.out, ev.ts, ev.seq, ev.own, ev.mcid, IF self THEN 0 ELSE MakerFee(m, quote), ev.mts,
       ev.tk, ev.tcid, IF self THEN 0 ELSE TakerFee(m, quote), ev.px, ev.q>>
PositionLog(oo) == <<3, oo.ow, oo.num, oo.m, oo.bb, oo.bq, oo.ab, oo.bf, oo.qf, oo.lf, oo.rr, oo.mv, oo.tv>>
TotalLog(side, who, paid, got, fee) == <<4, side, who, paid, got, fee>>
DepositLog(i, who, b, q) == <<5, i, who, b, q>>
SettleLog(i, b, q, reb, ref) == <<6, i, b, q, reb, ref>>
SweepLog(n, to) == <<7, 0, n, to>>
DelegateLog(i, dl) == <<8, i, dl>>

(* applies one event to the account it concerns *)
ApplyEvent(s, ev) ==
  IF ev.ty = 0
  THEN LET c == Credit(s.m, s.oos[ev.own], ev)
       IN [ok |-> NonNeg(c.oo),
           s |-> [s EXCEPT !.m = c.m, !.oos[ev.own] = c.oo, !.lg = @ \o <<FillLog(s.m, ev), PositionLog(c.oo)>>]]
  ELSE IF ~CanRefund(s.oos[ev.own], ev.slot) THEN [ok |-> FALSE, s |-> s]
  ELSE LET oo == Refund(s.m, s.oos[ev.own], ev.slot, ev.q)
       IN [ok |-> NonNeg(oo), s |-> [s EXCEPT !.oos[ev.own] = oo]]

(* k is the running state of an instruction: k.s the market, k.ok no failure yet *)
Push(k, ev) ==
  IF Len(k.s.heap) >= HeapCap THEN [k EXCEPT !.ok = FALSE]
  ELSE [k EXCEPT !.s.heap = Append(@, ev)]

Direct(k, ev) == LET r == ApplyEvent(k.s, ev) IN [k EXCEPT !.s = r.s, !.ok = r.ok]

(* an order leaves the book unfilled *)
Evict(k, side, o, taker, rem) ==
  LET ev == OutEv(side, o, k.s.t)
  IN IF (taker # 0 /\ o.own = taker) \/ o.own \in rem THEN Direct(k, ev) ELSE Push(k, ev)

-----------------------------------------------------------------------------
(* A new order. od: side, ty, pg, px, plim, mb, mq, cid, tif, stp            *)
(* taker: open orders account or 0, who: name of the taker in fill events    *)

PostTarget(od) == od.pg = 1 \/ od.ty \in {Limit, PostOnly, Slide}
IsPostOnly(od) == od.ty \in {PostOnly, Slide}

RECURSIVE MatchLoop(_, _, _, _, _, _, _)
MatchLoop(k, r, od, price, taker, who, rem) ==
  IF ~k.ok \/ r = <<>> \/ k.remb = 0 \/ k.remq = 0 THEN k
  ELSE
  LET x == Head(r)
      o == x.o
      other == Other(od.side)
      next(kk) == MatchLoop(kk, Tail(r), od, price, taker, who, rem)
  IN
  IF ~Live(other, o, k.oracle, k.s.t) THEN
     IF k.drops < MaxDrops
     THEN next([Evict(k, other, o, taker, rem) EXCEPT !.drops = @ + 1, !.dels = @ \cup {o.seq}])
     ELSE next(k)
  ELSE IF ~Within(od.side, x.p, price) THEN k
  ELSE IF IsPostOnly(od) \/ k.lim = 0 \/ k.remq \div x.p = 0 THEN [k EXCEPT !.post = FALSE]
  ELSE
  LET qty == Min2(Min2(k.remb, o.q), k.remq \div x.p)
      quote == qty * x.p
      self == taker # 0 /\ o.own = taker
  IN
  IF self /\ od.stp = Abort THEN [k EXCEPT !.ok = FALSE]
  ELSE IF self /\ od.stp = CancelProvide THEN
     LET oo == Refund(k.s.m, k.s.oos[taker], o.slot, o.q)
     IN IF ~CanRefund(k.s.oos[taker], o.slot) THEN [k EXCEPT !.ok = FALSE]
        ELSE next([k EXCEPT !.s.oos[taker] = oo, !.ok = NonNeg(oo), !.dels = @ \cup {o.seq}])
  ELSE
  LET ev == FillEv(od.side, o, x.p, qty, k.s.t, k.s.m.seq, who, od.cid)
      k1 == [k EXCEPT !.remb = @ - qty, !.remq = @ - quote, !.lim = @ - 1,
                      !.selfq = @ + (IF self THEN quote ELSE 0),
                      !.rebates = @ + (IF self THEN 0 ELSE MakerRebate(k.s.m, quote * k.s.m.qls)),
                      !.dels = IF qty = o.q THEN @ \cup {o.seq} ELSE @,
                      !.chg = IF qty = o.q THEN @ ELSE @ \cup {<<o.seq, o.q - qty>>},
                      !.trades = Append(@, [seq |-> o.seq, px |-> x.p, q |-> qty]),
                      !.s.lg = Append(@, SigLog(k.s.m.seq))]
  IN IF o.own \in rem /\ k.direct < MaxDirectFills
     THEN IF self THEN [k EXCEPT !.ok = FALSE]   \* the account is already in use by the taker
          ELSE next([Direct(k1, ev) EXCEPT !.direct = @ + 1])
     ELSE next(Push(k1, ev))

(* the matched side after the loop *)
LOCAL Settled(l, dels, chg) ==
  LET kept == IF dels = {} THEN l ELSE Without(l, dels)
  IN IF chg = {} THEN kept
     ELSE [i \in 1..Len(kept) |->
             LET c == {x \in chg : x[1] = kept[i].seq}
             IN IF c = {} THEN kept[i] ELSE [kept[i] EXCEPT !.q = (CHOOSE x \in c : TRUE)[2]]]

LOCAL Pick(l, c, tie) ==
  LET p == {n \in 1..Len(tie) : \E i \in c : l[i].seq = tie[n]}
      first == CHOOSE n \in p : \A o \in p : n <= o
  IN IF p = {} THEN CHOOSE i \in c : \A j \in c : i <= j
     ELSE CHOOSE i \in c : l[i].seq = tie[first]

RoomMaking(k, side, pg, taker, rem, tie) ==
  LET l == Side(k.s, side)
      c == ExpiredCandidates(l, pg, k.s.t)
  IN IF c = {} THEN k
     ELSE LET o == l[Pick(l, c, tie)]
          IN Evict([k EXCEPT !.s = SetSide(@, side, Without(l, {o.seq}))], side, o, taker, rem)

BootWorst(k, side, price, taker, rem) ==
  LET l == Side(k.s, side)
      w == WorstOf(side, l, k.oracle)
  IN IF ~Full(l, HW(k.s, side)) THEN k
     ELSE IF ~w.has THEN [k EXCEPT !.ok = FALSE]
     ELSE IF ~Better(side, price, w.p) THEN [k EXCEPT !.ok = FALSE]
     ELSE Evict([k EXCEPT !.s = SetSide(@, side, Without(l, {w.o.seq}))], side, w.o, taker, rem)

NewOrder(s0, od, taker, who, lim, rem, tie) ==
  LET m0 == s0.m
      oracle == OraclePrice(s0)
      opp == Side(s0, Other(od.side))
      raw == CASE od.pg = 1 -> PegPrice(oracle, od.px)
               [] od.ty = MarketOrder -> IF od.side = Bid THEN BIG ELSE 1
               [] OTHER -> od.px
      best == IF od.ty = Slide THEN BestPrice(Other(od.side), opp, oracle, s0.t) ELSE NoPrice
      price == IF best = NoPrice THEN raw
               ELSE IF od.side = Bid THEN Min2(raw, best - 1) ELSE Max2(raw, best + 1)
      incl == IF od.mq = BIG THEN INFQ ELSE od.mq
      maxq == IF od.side = Bid /\ ~IsPostOnly(od) THEN WithoutTakerFee(incl, m0.tf) ELSE incl
      bad == \/ od.pg = 1 /\ oracle = NoPrice
             \/ od.pg = 1 /\ od.px = BIG /\ oracle > 0
             \/ price < 1
             \/ od.mb > BIG - 100000 /\ m0.bls > 1 /\ ~od.anybase
             \/ od.mq = BIG - 1
      s1 == [s0 EXCEPT !.m.seq = @ + 1]
      k0 == [ok |-> TRUE, s |-> s1, oracle |-> oracle, remb |-> od.mb, remq |-> maxq, lim |-> lim,
             selfq |-> 0, rebates |-> 0, post |-> PostTarget(od), drops |-> 0, direct |-> 0,
             dels |-> {}, chg |-> {}, trades |-> <<>>]
      k1 == MatchLoop(k0, Ranked(Other(od.side), opp, oracle), od, price, taker, who, rem)
      takenB == od.mb - k1.remb
      takenQ == maxq - k1.remq
      took == takenB > 0 \/ takenQ > 0
      feeBase == (takenQ - k1.selfq) * m0.qls
      fee == IF feeBase > 0 THEN TakerFee(m0, feeBase) ELSE 0
      ref == IF feeBase > 0 THEN fee - k1.rebates ELSE 0
      tb == takenB * m0.bls
      tq == takenQ * m0.qls
      s2 == [SetSide(k1.s, Other(od.side), Settled(opp, k1.dels, k1.chg))
               EXCEPT !.m.facc = @ + ref]
      total == IF od.side = Bid THEN TotalLog(Bid, who, tq + fee, tb, fee) ELSE TotalLog(Ask, who, tb, tq - fee, fee)
      s3 == IF ~took THEN s2
            ELSE IF taker = 0 THEN [s2 EXCEPT !.m.tvol = @ + tq, !.lg = Append(@, total)]
            ELSE LET s25 ==
                 [s2 EXCEPT !.m.rracc = @ + ref,
                            !.oos[taker].rr = @ + ref,
                            !.oos[taker].tv = @ + tq,
                            !.oos[taker].bf = @ + (IF od.side = Bid THEN tb ELSE 0),
                            !.oos[taker].qf = @ + (IF od.side = Ask THEN tq - fee ELSE 0)]
                 IN [s25 EXCEPT !.lg = @ \o <<PositionLog(s25.oos[taker]), total>>]
      (* what may rest *)
      left == incl - takenQ - CeilDiv(fee, m0.qls)
      leftNet == IF left <= 0 THEN 0 ELSE left - MakerLock(m0, left)
      lockPrice == IF od.pg = 1 /\ od.side = Bid THEN od.plim ELSE price
      qty == Min2(k1.remb, leftNet \div lockPrice)
      rests == /\ k1.post /\ qty > 0
               /\ ~(od.pg = 1 /\ Better(od.side, price, od.plim))
      killed == od.ty = FOK /\ od.pg = 0 /\ k1.remb > 0
      base == [ok |-> k1.ok /\ ~killed, s |-> s3, seq |-> 0, pb |-> 0, pq |-> 0, tb |-> tb, tq |-> tq,
               fee |-> fee, mfee |-> 0, ref |-> ref, trades |-> k1.trades]
      (* resting *)
      pq == IF od.side = Bid THEN qty * lockPrice * m0.qls ELSE 0
      mfee == MakerLock(m0, pq)
      kA == [k1 EXCEPT !.s = [s3 EXCEPT !.oos[taker].lf = @ + mfee]]
      kB == RoomMaking(kA, od.side, od.pg, taker, rem, tie)
      kC == IF kB.ok THEN BootWorst(kB, od.side, price, taker, rem) ELSE kB
      slot == LowestFree(kC.s.oos[taker])
      leaf == [pg |-> od.pg, pd |-> IF od.pg = 1 THEN price - oracle ELSE price, seq |-> s1.m.seq,
               own |-> taker, slot |-> slot, q |-> qty, ts |-> s0.t, tif |-> od.tif, cid |-> od.cid,
               plim |-> IF od.pg = 1 THEN od.plim ELSE -1]
      entry == [s |-> slot, pd |-> leaf.pd, seq |-> leaf.seq, sd |-> od.side, tr |-> od.pg,
                cid |-> od.cid, lp |-> lockPrice]
      s4 == [AddLeaf(kC.s, od.side, leaf)
               EXCEPT !.oos[taker].oo = AddSlot(@, entry),
                      !.oos[taker].bb = @ + (IF od.side = Bid THEN qty ELSE 0),
                      !.oos[taker].bq = @ + (IF od.side = Bid THEN qty * lockPrice ELSE 0),
                      !.oos[taker].ab = @ + (IF od.side = Ask THEN qty ELSE 0)]
  IN IF bad THEN [ok |-> FALSE]
     ELSE IF ~base.ok \/ ~rests THEN base
     ELSE IF ~kC.ok \/ FreeSlots(kC.s.oos[taker]) = {} THEN [ok |-> FALSE]
     ELSE [base EXCEPT !.s = s4, !.seq = leaf.seq, !.pb = qty * m0.bls, !.pq = pq, !.mfee = mfee]

-----------------------------------------------------------------------------
(* Who may do what *)

Owns(s, a) == a.oo \in 1..Len(s.oos) /\ s.oos[a.oo].ex = 1 /\ s.oos[a.oo].m = a.m
Entitled(oo, p) == p = oo.ow \/ (oo.dl # 0 /\ p = oo.dl)
Trader(s, a) == Owns(s, a) /\ Entitled(s.oos[a.oo], a.sg)
Placer(s, a) == Trader(s, a) /\ a.ad = s.m.ooadm

RemSet(a) == {a.rem[i] : i \in 1..Len(a.rem)}

-----------------------------------------------------------------------------
(* Instructions *)

(* seconds to live of an order that names an expiry; -1: already over *)
TimeInForce(t, exp) == IF exp = 0 THEN 0 ELSE IF exp <= t THEN -1 ELSE Min2(exp - t, 65535)

OrderOf(s, a) ==
  [side |-> a.sd, ty |-> a.ty, pg |-> a.pg, px |-> a.px, plim |-> a.plim, mb |-> a.mb, mq |-> a.mq,
   cid |-> a.cid, tif |-> TimeInForce(s.t, a.exp), stp |-> a.stp, anybase |-> FALSE]

ArgsOk(s, a) == IF a.pg = 1 THEN s.orc.n > 0 /\ a.plim > 0 ELSE a.px >= 1

(* funds for a new order: free balance first, the wallet for the rest *)
Fund(s, a, r, grew) ==
  LET oo == r.s.oos[a.oo]
      need == IF a.sd = Bid THEN r.tq + r.pq + r.fee + r.mfee ELSE r.tb + r.pb
      have == IF a.sd = Bid THEN oo.qf ELSE oo.bf
      free == Min2(need, have)
      dep == need - free
      s1 == IF a.sd = Bid
            THEN [r.s EXCEPT !.oos[a.oo].qf = @ - free, !.m.qdt = @ + dep, !.vq = @ + dep, !.wq[a.sg] = @ - dep]
            ELSE [r.s EXCEPT !.oos[a.oo].bf = @ - free, !.m.bdt = @ + dep, !.vb = @ + dep, !.wb[a.sg] = @ - dep]
      s2 == IF grew THEN [s1 EXCEPT !.oos[a.oo].pen = @ + 1] ELSE s1
  IN IF (IF a.sd = Bid THEN s.wq[a.sg] ELSE s.wb[a.sg]) < dep THEN Fail(s) ELSE Done(s2, r.seq)

(* placing an order whose accounts and arguments are in order *)
PlaceChecked(s, a, od, tie) ==
  IF od.mb < 0 \/ od.mq < 0 \/ Expired(s) THEN Fail(s)
  ELSE LET r == NewOrder(s, od, a.oo, a.oo, a.lim, RemSet(a), tie)
       IN IF ~r.ok THEN Fail(s) ELSE Fund(s, a, r, Len(r.s.heap) > Len(s.heap))

Place(s, a, tie) ==
  LET od == OrderOf(s, a)
  IN IF ~Placer(s, a) \/ ~ArgsOk(s, a) THEN Fail(s)
     ELSE IF od.tif = -1 THEN Done(s, 0)
     ELSE IF a.pg = 1 /\ a.ty \notin {Limit, PostOnly, Slide} THEN Fail(s)
     ELSE PlaceChecked(s, a, od, tie)

Take(s, a, tie) ==
  LET od == [side |-> a.sd, ty |-> a.ty, pg |-> 0, px |-> a.px, plim |-> -1, mb |-> a.mb, mq |-> a.mq,
             cid |-> 0, tif |-> 0, stp |-> Decrement, anybase |-> FALSE]
  IN IF a.ad # s.m.ooadm \/ a.px < 1 \/ a.ty \notin {IOC, MarketOrder, FOK} \/ a.mb < 0 \/ a.mq < 0
        \/ Expired(s)
     THEN Fail(s)
     ELSE
     LET r == NewOrder(s, od, 0, 100 + a.sg, a.lim, RemSet(a), tie)
     IN IF ~r.ok THEN Fail(s)
        ELSE
        LET reb == r.fee - r.ref
            inB == IF a.sd = Bid THEN -r.tb ELSE r.tb            \* into the base vault
            inQ == IF a.sd = Bid THEN r.tq + reb ELSE reb - r.tq \* into the quote vault
            s1 == [r.s EXCEPT !.m.bdt = @ + inB, !.m.qdt = @ + inQ, !.vb = @ + inB, !.vq = @ + inQ,
                              !.wb[a.sg] = @ - inB, !.wq[a.sg] = @ - inQ,
                              !.m.ml = @ + (IF Len(r.s.heap) > Len(s.heap) THEN Penalty ELSE 0)]
        IN IF s1.wb[a.sg] < 0 \/ s1.wq[a.sg] < 0 \/ s1.vb < 0 \/ s1.vq < 0 THEN Fail(s) ELSE Done(s1, 0)

-----------------------------------------------------------------------------
(* Cancelling *)

OnBook(s, x) == \E i \in 1..Len(Side(s, x.sd)) : Side(s, x.sd)[i].seq = x.seq
OrderFor(s, x) == SelectSeq(Side(s, x.sd), LAMBDA o : o.seq = x.seq)[1]

(* cancels what slot x of account i has on the book *)
CancelSlot(s, i, x) ==
  LET o == OrderFor(s, x)
      s1 == SetSide(s, x.sd, Without(Side(s, x.sd), {o.seq}))
  IN [s1 EXCEPT !.oos[i] = Refund(s.m, s.oos[i], o.slot, o.q)]

RECURSIVE CancelLoop(_, _, _, _)
CancelLoop(s, i, xs, total) ==
  IF xs = <<>> THEN [s |-> s, total |-> total]
  ELSE LET x == Head(xs)
       IN IF OnBook(s, x) THEN CancelLoop(CancelSlot(s, i, x), i, Tail(xs), total + OrderFor(s, x).q)
          ELSE CancelLoop(s, i, Tail(xs), total)

(* side -1: both; cid -1: any. Slots whose order has left the book use up the limit. *)
CancelMany(s, i, side, cid, lim) ==
  LET hits == SelectSeq(s.oos[i].oo, LAMBDA x : (side = -1 \/ x.sd = side) /\ (cid = -1 \/ x.cid = cid))
  IN CancelLoop(s, i, SubSeq(hits, 1, Min2(lim, Len(hits))), 0)

Cancel(s, a) ==
  LET hits == SelectSeq(s.oos[a.oo].oo, LAMBDA x : x.seq = a.seq /\ x.pd = a.pd /\ x.sd = a.sd /\ x.tr = a.tr)
  IN IF ~Trader(s, a) THEN Fail(s)
     ELSE IF hits = <<>> THEN Fail(s)
     ELSE IF ~OnBook(s, hits[1]) THEN Fail(s)
     ELSE Done(CancelSlot(s, a.oo, hits[1]), 0)

CancelCid(s, a) ==
  IF ~Trader(s, a) THEN Fail(s)
  ELSE LET r == CancelMany(s, a.oo, -1, a.cid, 255) IN Done(r.s, r.total)

CancelAll(s, a) ==
  IF ~Trader(s, a) THEN Fail(s)
  ELSE Done(CancelMany(s, a.oo, a.sd, -1, a.lim).s, 0)

Prune(s, a) ==
  IF ~Owns(s, a) \/ s.m.cmadm = 0 \/ a.ad # s.m.cmadm \/ ~Expired(s) THEN Fail(s)
  ELSE Done(CancelMany(s, a.oo, -1, -1, a.lim).s, 0)

(* cancel by client id, then place what is left of the replacement *)
Edit(s, a, tie) ==
  LET od == OrderOf(s, a)
      c == CancelMany(s, a.oo, -1, a.ecid, 255)
      gone == a.esz - c.total
  IN IF ~Placer(s, a) \/ ~ArgsOk(s, a) THEN Fail(s)
     ELSE IF od.tif = -1 THEN Done(s, 0)
     ELSE IF a.pg = 1 /\ a.ty \notin {Limit, PostOnly, Slide} THEN Fail(s)
     ELSE IF a.esz < 0 THEN Fail(s)
     ELSE IF gone >= 0 /\ od.mb > gone
     THEN LET r == PlaceChecked(c.s, a, [od EXCEPT !.mb = @ - gone], tie)
          IN IF r.ok THEN r ELSE Fail(s)
     ELSE Done(c.s, 0)

-----------------------------------------------------------------------------
(* Several orders at once *)

RECURSIVE PlaceLoop(_, _, _, _)
PlaceLoop(k, a, ods, tie) ==
  IF ods = <<>> \/ ~k.ok THEN k
  ELSE
  LET od == Head(ods)
      oo == k.s.oos[a.oo]
      haveB == (k.w.b + oo.bf - k.nb) \div k.s.m.bls
      haveQ == (k.w.q + oo.qf - k.nq) \div k.s.m.qls
      sized == IF od.side = Ask THEN [od EXCEPT !.mb = haveB]
               ELSE [od EXCEPT !.mq = Min2(od.mq, haveQ)]
      r == NewOrder(k.s, sized, a.oo, a.oo, a.lim, RemSet(a), tie)
  IN IF od.mq < 0 \/ ~r.ok THEN [k EXCEPT !.ok = FALSE]
     ELSE PlaceLoop([k EXCEPT !.s = r.s, !.ids = Append(@, r.seq),
                              !.nb = @ + (IF od.side = Ask THEN r.tb + r.pb ELSE 0),
                              !.nq = @ + (IF od.side = Bid THEN r.tq + r.pq + r.fee + r.mfee ELSE 0)],
                    a, Tail(ods), tie)

Multi(s, a, tie) ==
  LET all == [i \in 1..(Len(a.bids) + Len(a.asks)) |->
               LET e == IF i <= Len(a.bids) THEN a.bids[i] ELSE a.asks[i - Len(a.bids)]
               IN [side |-> IF i <= Len(a.bids) THEN Bid ELSE Ask, ty |-> a.ty, pg |-> 0, px |-> e.px,
                   plim |-> -1, mb |-> BIG, mq |-> e.mq, cid |-> i - 1,
                   tif |-> TimeInForce(s.t, e.exp), stp |-> CancelProvide, anybase |-> TRUE]]
      ods == SelectSeq(all, LAMBDA od : od.tif # -1)
      s1 == IF a.can = 1 THEN CancelMany(s, a.oo, -1, -1, 255).s ELSE s
      k == PlaceLoop([ok |-> TRUE, s |-> s1, w |-> [b |-> s.wb[a.sg], q |-> s.wq[a.sg]],
                      nb |-> 0, nq |-> 0, ids |-> <<>>], a, ods, tie)
      oo == k.s.oos[a.oo]
      freeB == Min2(k.nb, oo.bf)
      freeQ == Min2(k.nq, oo.qf)
      depB == k.nb - freeB
      depQ == k.nq - freeQ
      grew == Len(k.s.heap) > Len(s.heap)
      s2 == [k.s EXCEPT !.oos[a.oo].bf = @ - freeB, !.oos[a.oo].qf = @ - freeQ,
                        !.oos[a.oo].pen = @ + (IF grew THEN 1 ELSE 0),
                        !.m.bdt = @ + depB, !.m.qdt = @ + depQ, !.vb = @ + depB, !.vq = @ + depQ,
                        !.wb[a.sg] = @ - depB, !.wq[a.sg] = @ - depQ]
  IN IF ~Placer(s, a) \/ (\E i \in 1..Len(all) : all[i].px < 1) THEN Fail(s)
     ELSE IF Expired(s) \/ ~k.ok THEN Fail(s)
     ELSE IF s.wb[a.sg] < depB \/ s.wq[a.sg] < depQ THEN Fail(s)
     ELSE Done(s2, k.ids)

-----------------------------------------------------------------------------
(* Events *)

RECURSIVE ConsumeLoop(_, _, _)
ConsumeLoop(k, sls, rem) ==
  IF sls = <<>> \/ ~k.ok THEN k
  ELSE LET ev == SelectSeq(k.s.heap, LAMBDA e : e.sl = Head(sls))[1]
       IN IF ev.own \notin rem THEN ConsumeLoop(k, Tail(sls), rem)
          ELSE LET r == ApplyEvent(k.s, ev)
               IN ConsumeLoop([ok |-> r.ok,
                               s |-> [r.s EXCEPT !.heap = SelectSeq(@, LAMBDA e : e.sl # Head(sls))]],
                              Tail(sls), rem)

LOCAL Uniq(l) == SelectSeq([i \in 1..Len(l) |-> [i |-> i, x |-> l[i]]],
                     LAMBDA p : \A j \in 1..(p.i - 1) : l[j] # p.x)
Consume(s, a) ==
  LET queue == [i \in 1..Len(s.heap) |-> s.heap[i].sl]
      given == IF a.op = "consumeg" THEN a.sl ELSE <<>>
      lim == Min2(IF a.op = "consumeg" THEN Len(given) ELSE a.lim, MaxConsume)
      used == {queue[i] : i \in 1..Len(queue)}
      u == Uniq(SelectSeq(given, LAMBDA x : x \in used) \o queue)
      todo == [i \in 1..Min2(lim, Len(u)) |-> u[i].x]
      r == ConsumeLoop([ok |-> TRUE, s |-> s], todo, RemSet(a))
  IN IF a.ad # s.m.ceadm \/ (\E i \in 1..Len(given) : given[i] >= HeapCap) THEN Fail(s)
     ELSE IF r.ok THEN Done(r.s, 0) ELSE Fail(s)

-----------------------------------------------------------------------------
(* Funds *)

DepositAmounts(s, a, b, q) ==
  IF ~Owns(s, a) \/ Expired(s) \/ s.wb[a.sg] < b \/ s.wq[a.sg] < q THEN Fail(s)
  ELSE Done([s EXCEPT !.oos[a.oo].bf = @ + b, !.oos[a.oo].qf = @ + q, !.m.bdt = @ + b, !.m.qdt = @ + q,
                      !.vb = @ + b, !.vq = @ + q, !.wb[a.sg] = @ - b, !.wq[a.sg] = @ - q,
                      !.lg = IF b > 0 \/ q > 0 THEN Append(@, DepositLog(a.oo, a.sg, b, q)) ELSE @], 0)

Deposit(s, a) == DepositAmounts(s, a, a.b, a.q)
Refill(s, a) ==
  IF ~Owns(s, a) THEN Fail(s)
  ELSE DepositAmounts(s, a, Max2(0, a.b - s.oos[a.oo].bf), Max2(0, a.q - s.oos[a.oo].qf))

SettleAccount(s, a) ==
  LET oo == s.oos[a.oo]
      dust == IF s.m.mf > 0 /\ oo.bb = 0 THEN oo.lf ELSE 0
      reb == oo.rr + dust
      toRef == a.ref # 0
      s1 == [s EXCEPT !.oos[a.oo].lf = @ - dust, !.oos[a.oo].rr = 0, !.oos[a.oo].bf = 0,
                      !.oos[a.oo].qf = 0, !.oos[a.oo].pen = 0,
                      !.m.rracc = @ - oo.rr,
                      !.m.fref = @ + (IF toRef THEN reb ELSE 0),
                      !.m.favail = @ + (IF toRef THEN 0 ELSE reb),
                      !.m.ml = @ + oo.pen * Penalty,
                      !.m.bdt = @ - oo.bf,
                      !.m.qdt = @ - oo.qf - (IF toRef THEN reb ELSE 0),
                      !.vb = @ - oo.bf,
                      !.vq = @ - oo.qf - (IF toRef THEN reb ELSE 0),
                      !.wb[a.db] = @ + oo.bf,
                      !.lg = Append(@, SettleLog(a.oo, oo.bf, oo.qf, reb, a.ref))]
      s2 == [s1 EXCEPT !.wq[a.dq] = @ + oo.qf]
      s3 == IF toRef THEN [s2 EXCEPT !.wq[a.ref] = @ + reb] ELSE s2
  IN IF s3.vb < 0 \/ s3.vq < 0 \/ s3.m.rracc < 0 \/ s3.m.bdt < 0 \/ s3.m.qdt < 0 THEN Fail(s) ELSE Done(s3, 0)

(* a delegate may pay out to the owner only, the owner to anybody *)
MayReceive(oo, signer, dest) == IF oo.dl # 0 /\ signer = oo.dl THEN dest = oo.ow ELSE signer = oo.ow

Settle(s, a) ==
  IF ~Trader(s, a) THEN Fail(s)
  ELSE IF ~MayReceive(s.oos[a.oo], a.sg, a.db) \/ ~MayReceive(s.oos[a.oo], a.sg, a.dq) THEN Fail(s)
  ELSE SettleAccount(s, a)

SettleExpired(s, a) ==
  IF ~Owns(s, a) \/ s.m.cmadm = 0 \/ a.ad # s.m.cmadm \/ ~Expired(s) THEN Fail(s)
  ELSE IF a.db # s.oos[a.oo].ow \/ a.dq # s.oos[a.oo].ow THEN Fail(s)
  ELSE SettleAccount(s, a)

Sweep(s, a) ==
  IF a.ad # s.m.feeadm \/ s.vq < s.m.favail THEN Fail(s)
  ELSE Done([s EXCEPT !.m.favail = 0, !.m.qdt = @ - s.m.favail, !.vq = @ - s.m.favail,
                      !.wq[a.dq] = @ + s.m.favail, !.lg = Append(@, SweepLog(s.m.favail, a.dq))], 0)

-----------------------------------------------------------------------------
(* Administration *)

SetExpired(s, a) ==
  IF s.m.cmadm = 0 \/ a.ad # s.m.cmadm \/ Expired(s) THEN Fail(s)
  ELSE Done([s EXCEPT !.m.exp = -1], 0)

SetDelegate(s, a) ==
  IF ~Owns(s, a) \/ s.oos[a.oo].ow # a.sg THEN Fail(s)
  ELSE Done([s EXCEPT !.oos[a.oo].dl = a.dl, !.lg = Append(@, DelegateLog(a.oo, a.dl))], 0)

EmptyPosition(oo) ==
  /\ oo.bb = 0 /\ oo.ab = 0 /\ oo.bf = 0 /\ oo.qf = 0 /\ oo.lf = 0 /\ oo.rr = 0
  /\ oo.pen = 0 /\ oo.bq = 0

Gone(oo) == [ex |-> 0, m |-> oo.m, ow |-> oo.ow, dl |-> 0, num |-> 0, bb |-> 0, ab |-> 0, bf |-> 0,
             qf |-> 0, lf |-> 0, rr |-> 0, pen |-> 0, mv |-> 0, tv |-> 0, bq |-> 0, oo |-> <<>>]

CloseAccount(s, a) ==
  IF ~Owns(s, a) \/ s.oos[a.oo].ow # a.sg \/ ~EmptyPosition(s.oos[a.oo]) THEN Fail(s)
  ELSE Done([s EXCEPT !.oos[a.oo] = Gone(@)], 0)

ClosedMarket(m) == [f \in DOMAIN m |-> 0]

CloseMarket(s, a) ==
  IF \/ s.m.cmadm = 0 \/ a.ad # s.m.cmadm \/ ~Expired(s)
     \/ s.m.bdt # 0 \/ s.m.qdt # 0 \/ s.m.favail # 0 \/ s.m.rracc # 0
     \/ s.bids # <<>> \/ s.asks # <<>> \/ s.heap # <<>>
  THEN Fail(s)
  ELSE Done([s EXCEPT !.m = ClosedMarket(@)], 0)

Tick(s, a) == Done([s EXCEPT !.t = @ + a.dt, !.sl = @ + a.ds], 0)

SetOracle(s, a) ==
  IF a.which > s.orc.n THEN Fail(s)
  ELSE IF a.which = 1 THEN Done([s EXCEPT !.orc.pa = a.p, !.orc.sa = s.sl], 0)
  ELSE Done([s EXCEPT !.orc.pb = a.p, !.orc.sb = s.sl], 0)

-----------------------------------------------------------------------------

PlaceOps == {"place", "take", "multi", "edit"}

Apply(s, a, tie) ==
  CASE a.op = "tick" -> Tick(s, a)
    [] a.op = "orc" -> SetOracle(s, a)
    [] a.op = "setdel" -> SetDelegate(s, a)
    [] a.op = "closeooa" -> CloseAccount(s, a)
    [] s.m.open = 0 -> Fail(s)
    [] a.op = "place" -> Place(s, a, tie)
    [] a.op = "take" -> Take(s, a, tie)
    [] a.op = "multi" -> Multi(s, a, tie)
    [] a.op = "edit" -> Edit(s, a, tie)
    [] a.op = "cancel" -> Cancel(s, a)
    [] a.op = "ccid" -> CancelCid(s, a)
    [] a.op = "call" -> CancelAll(s, a)
    [] a.op = "prune" -> Prune(s, a)
    [] a.op \in {"consume", "consumeg"} -> Consume(s, a)
    [] a.op = "deposit" -> Deposit(s, a)
    [] a.op = "refill" -> Refill(s, a)
    [] a.op = "settle" -> Settle(s, a)
    [] a.op = "settlex" -> SettleExpired(s, a)
    [] a.op = "sweep" -> Sweep(s, a)
    [] a.op = "setexp" -> SetExpired(s, a)
    [] a.op = "closem" -> CloseMarket(s, a)

=============================================================================
