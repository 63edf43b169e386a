----------------------------- MODULE ClientView -----------------------------
(* What the TypeScript client makes of the accounts of a market. A question  *)
(* names the number of price levels (depth) and amounts to convert (lots);   *)
(* the answer is in the terms of the state, where numbers for people are     *)
(* digits and a power of ten. The client does not know prices of pegged      *)
(* orders: it lists fixed ones only where there are some.                    *)
EXTENDS MarketProps

(* the decimal number n * 10^e, written with as few digits as possible *)
RECURSIVE Decimal(_, _)
Decimal(n, e) == IF n = 0 THEN <<0, 0>> ELSE IF n % 10 = 0 THEN Decimal(n \div 10, e + 1) ELSE <<n, e>>

(* prices that need no rounding, and no larger numbers than this computes with *)
Exact(m, lots) == 1000 % m.bls = 0 /\ lots * m.qls < 2000000
UiPrice(v, m, lots) == Decimal(lots * m.qls * (1000 \div m.bls), v.bdec - v.qdec - 3)
UiBase(v, m, lots) == Decimal(lots * m.bls, -v.bdec)
UiQuote(v, m, lots) == Decimal(lots * m.qls, -v.qdec)

InOrder(side, l) == LET r == Ranked(side, Fixed(l), NoPrice) IN [k \in DOMAIN r |-> r[k].o]

(* price levels: price and size, best first *)
Levels(l) ==
  FoldLeft(LAMBDA acc, o :
             IF acc # <<>> /\ acc[Len(acc)][1] = o.pd
             THEN [acc EXCEPT ![Len(acc)] = <<o.pd, @[2] + o.q>>]
             ELSE Append(acc, <<o.pd, o.q>>), <<>>, l)

(* base and quote an account holds, apart from what is in its orders *)
Worth(m, o) == <<o.ab * m.bls + o.bf, o.bq * m.qls + o.qf + o.lf>>

(* what is shown makes sense: levels are in order and leave no order out, and *)
(* balances that count what is to come add up to what the market holds        *)
ViewSound(s) ==
  LET after == AllEvents(s, s.heap).s
      sum(l) == FoldSeq(LAMBDA x, acc : x + acc, 0, l)
      all(k) == sum([i \in DOMAIN after.oos |-> Worth(s.m, after.oos[i])[k]])
      rebates == sum([i \in DOMAIN after.oos |-> after.oos[i].rr])
  IN s.m.open = 1 =>
     /\ \A side \in {Bid, Ask} :
          LET l == InOrder(side, Side(s, side))
              v == Levels(l)
          IN /\ sum([i \in DOMAIN v |-> v[i][2]]) = sum([i \in DOMAIN l |-> l[i].q])
             /\ \A i \in 1..(Len(v) - 1) : IF side = Bid THEN v[i][1] > v[i + 1][1] ELSE v[i][1] < v[i + 1][1]
     /\ all(1) = s.m.bdt
     /\ all(2) + rebates + after.m.favail = s.m.qdt

BookWrong(v, s, side, seen, l2, best, depth) ==
  LET l == Side(s, side)
      want == InOrder(side, l)
      plain == Pegged(l) = <<>>
      levels == Levels(want)
      shown == SubSeq(levels, 1, Min2(depth, Len(levels)))
  IN (IF [k \in DOMAIN seen |-> seen[k].o] # want THEN {"orders"} ELSE {})
     \cup (IF \E k \in DOMAIN seen : (seen[k].old = 1) # OrderExpired(seen[k].o, s.t) THEN {"expiry"} ELSE {})
     \cup (IF \E k \in DOMAIN seen :
                 \/ Exact(s.m, seen[k].o.pd) /\ seen[k].price # UiPrice(v, s.m, seen[k].o.pd)
                 \/ seen[k].size # UiBase(v, s.m, seen[k].o.q)
           THEN {"numbers"} ELSE {})
     \cup (IF plain /\ [k \in DOMAIN l2 |-> <<l2[k][3], l2[k][4]>>] # shown THEN {"levels"} ELSE {})
     \cup (IF plain /\ \E k \in DOMAIN l2 :
                 \/ Exact(s.m, l2[k][3]) /\ l2[k][1] # UiPrice(v, s.m, l2[k][3])
                 \/ l2[k][2] # UiBase(v, s.m, l2[k][4])
           THEN {"numbers"} ELSE {})
     \cup (IF plain /\ best # (IF want = <<>> THEN -1 ELSE want[1].seq) THEN {"best"} ELSE {})

MarketSeen(v, s) == \A f \in DOMAIN v.m : v.m[f] = s.m[f]

EventsSeen(v, s) == v.ev = [k \in DOMAIN s.heap |-> [s.heap[k] EXCEPT !.sl = -1]]

(* x: what is said about account k *)
AccountWrong(v, s, k, x, after) ==
  LET o == s.oos[k]
      p == after.oos[k]
      fixed == \A i \in DOMAIN o.oo : o.oo[i].tr = 0
      listed == SelectSeq(o.oo, LAMBDA i : OnBook(s, i))
  IN IF o.ex = 0 \/ x.ex = 0 THEN (IF o.ex = x.ex THEN {} ELSE {"account"})
     ELSE (IF x.v # o THEN {"account"} ELSE {})
          \cup (IF <<x.base, x.quote>> # Worth(s.m, p) THEN {"balance"} ELSE {})
          \cup (IF <<x.nb, x.nq>> # Worth(s.m, o) THEN {"balance"} ELSE {})
          \cup (IF x.ub # Decimal(Worth(s.m, o)[1], -v.bdec) \/ x.uq # Decimal(Worth(s.m, o)[2], -v.qdec) THEN {"numbers"} ELSE {})
          \cup (IF fixed /\ x.items # [i \in DOMAIN listed |-> listed[i].seq] THEN {"items"} ELSE {})
          \cup (IF x.text # 1 THEN {"text"} ELSE {})
          \cup (IF ToSet(x.slots) # {e.sl : e \in {e \in Range(s.heap) : e.own = k}} \/ Len(x.slots) # Cardinality(ToSet(x.slots))
                THEN {"slots"} ELSE {})

(* who: a person, x: the accounts found for them *)
LookupWrong(v, s, who, x) ==
  LET mine == {k \in DOMAIN s.oos : s.oos[k].ex = 1 /\ s.oos[k].ow = who}
      once(l) == Len(l) = Cardinality(ToSet(l))
  IN IF /\ ToSet(x.all) = mine /\ once(x.all)
        /\ ToSet(x.here) = mine /\ once(x.here)
        /\ IF mine = {} THEN x.first = 0 ELSE x.first \in mine
        /\ Len(x.loaded) = Cardinality(mine)
        /\ {x.loaded[i][1] : i \in DOMAIN x.loaded} = mine
        /\ \A i \in DOMAIN x.loaded : x.loaded[i][2] = who /\ x.loaded[i][3] = 0 /\ x.loaded[i][4] = Len(Fixed(s.bids))
     THEN {} ELSE {"lookup"}

(* amounts for people and back: u for lots *)
NumbersWrong(v, s, lots, u) ==
  (IF \E k \in DOMAIN u.price : Exact(s.m, lots) /\ u.price[k] # UiPrice(v, s.m, lots) THEN {"numbers"} ELSE {})
  \cup (IF \E k \in DOMAIN u.base : u.base[k] # UiBase(v, s.m, lots) THEN {"numbers"} ELSE {})
  \cup (IF \E k \in DOMAIN u.quote : u.quote[k] # UiQuote(v, s.m, lots) THEN {"numbers"} ELSE {})
  \cup (IF u.native # <<Decimal(lots, -v.bdec), Decimal(lots, -v.qdec), Decimal(lots, v.bdec - v.qdec)>> THEN {"numbers"} ELSE {})
  \cup (IF \E k \in DOMAIN u.back : (Exact(s.m, lots) \/ k \notin {1, 4}) /\ u.back[k] # lots THEN {"back"} ELSE {})

ViewWrong(s, a, v) ==
  IF "err" \in DOMAIN v THEN {"error"}
  ELSE LET after == AllEvents(s, s.heap).s
           pending == {e.own : e \in Range(s.heap)}
       IN (IF ~MarketSeen(v, s) \/ v.keys # 1 THEN {"market"} ELSE {})
          \cup BookWrong(v, s, Bid, v.bids, v.bidsl2, v.bidsbest, a.depth)
          \cup BookWrong(v, s, Ask, v.asks, v.asksl2, v.asksbest, a.depth)
          \cup (IF v.same # 1 THEN {"orders"} ELSE {})
          \cup (IF ~EventsSeen(v, s) THEN {"events"} ELSE {})
          \cup UNION {AccountWrong(v, s, k, v.oos[k], after) : k \in DOMAIN s.oos}
          \cup UNION {LookupWrong(v, s, p, v.people[p]) : p \in DOMAIN v.people}
          \cup (IF ToSet(v.consume) # pending \/ Len(v.consume) # Cardinality(pending) THEN {"consume"} ELSE {})
          \cup (IF v.found # <<0>> THEN {"found"} ELSE {})
          \cup (IF v.watched # 1 THEN {"watched"} ELSE {})
          \cup UNION {NumbersWrong(v, s, a.lots[k], v.ui[k]) : k \in DOMAIN a.lots}
          \cup (IF (Exact(s.m, 1) /\ v.tick # UiPrice(v, s.m, 1)) \/ v.min # UiBase(v, s.m, 1) THEN {"numbers"} ELSE {})
          \cup (IF ToSet(v.got) # ToSet(v.told) \/ Len(v.got) # Len(v.told) THEN {"listed"} ELSE {})

-----------------------------------------------------------------------------
(* Where the client chooses, what its choice has to be *)

ChoiceWrong(s, a) ==
  CASE a.op = "consumeg" /\ a.by = "consumefor" ->
         IF /\ ToSet(a.sl) = {e.sl : e \in {e \in Range(s.heap) : e.own = a.oo}}
            /\ Len(a.sl) = Cardinality(ToSet(a.sl))
            /\ a.oo \in ToSet(a.rem)
         THEN {} ELSE {"choice"}
    [] a.op = "place" /\ a.by = "placeauto" ->
         LET side == Other(a.sd)
             l == InOrder(side, Side(s, side))
             makers == FoldLeft(LAMBDA acc, o : IF Len(acc) >= 3 \/ o.own \in ToSet(acc) THEN acc ELSE Append(acc, o.own), <<>>, l)
         IN IF a.rem = (IF a.ty \in {PostOnly, Slide} THEN <<>> ELSE makers) THEN {} ELSE {"choice"}
    [] OTHER -> {}
=============================================================================
