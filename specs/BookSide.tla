------------------------------ MODULE BookSide ------------------------------
(* One side of the book: two ordered maps (tree 1 holds fixed prices, tree 2 *)
(* offsets to the oracle price) that share a pool of nodes. A leaf is        *)
(* [id, k, exp, q, plim]; keys are sequences of numbers compared one after   *)
(* the other. A tree lists its leaves in walking order: rising keys for asks *)
(* (side 1), falling keys for bids (side 0).                                 *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

CONSTANT Pool

Never == 2147483647
Top == 2147483647
Bottom == -Top - 1

RECURSIVE Less(_, _)
Less(a, b) == IF a = <<>> THEN FALSE
              ELSE a[1] < b[1] \/ (a[1] = b[1] /\ Less(Tail(a), Tail(b)))
Before(side, a, b) == IF side = 1 THEN Less(a, b) ELSE Less(b, a)

Used(n) == IF n = 0 THEN 0 ELSE 2 * n - 1
Free(t) == Pool - Used(Len(t[1])) - Used(Len(t[2]))

(* binary search: how many leaves of the tree come before key k *)
RECURSIVE Search(_, _, _, _, _)
Search(side, l, k, lo, hi) ==
  IF lo = hi THEN lo
  ELSE LET m == (lo + hi) \div 2
       IN IF Before(side, l[m + 1].k, k) THEN Search(side, l, k, m + 1, hi) ELSE Search(side, l, k, lo, m)
Rank(side, l, k) == Search(side, l, k, 0, Len(l))
Has(side, l, k) == LET p == Rank(side, l, k) IN p < Len(l) /\ l[p + 1].k = k

(* the leaf an insertion a makes *)
Leaf(side, a, id) ==
  [id |-> id, k |-> IF "k" \in DOMAIN a THEN a.k ELSE <<a.px, IF side = 1 THEN id ELSE -id>>,
   exp |-> IF a.tif = 0 THEN Never ELSE a.ts + a.tif,
   q |-> IF "q" \in DOMAIN a THEN a.q ELSE 1, plim |-> IF "plim" \in DOMAIN a THEN a.plim ELSE -1]

Outcome(ok, ret, t) == [ok |-> ok, ret |-> ret, t |-> t]
Fails(t) == Outcome(FALSE, -1, t)
Without(t, w, i) == Outcome(TRUE, t[w][i].id, [t EXCEPT ![w] = RemoveAt(@, i)])

(* inserting leaf x into tree w: returns the number of the leaf it replaces *)
Insert(side, t, w, x) ==
  LET p == Rank(side, t[w], x.k)
      need == IF t[w] = <<>> THEN 1 ELSE 2
  IN IF Has(side, t[w], x.k) THEN Outcome(TRUE, t[w][p + 1].id, [t EXCEPT ![w][p + 1] = x])
     ELSE IF Free(t) < need THEN Fails(t)
     ELSE Outcome(TRUE, 0, [t EXCEPT ![w] = InsertAt(@, p + 1, x)])

Erase(side, t, w, k) ==
  IF Has(side, t[w], k) THEN Without(t, w, Rank(side, t[w], k) + 1) ELSE Fails(t)

RemoveIth(t, w, i) == IF t[w] = <<>> THEN Fails(t)
                      ELSE Without(t, w, IF i < Len(t[w]) THEN i + 1 ELSE Len(t[w]))
RemoveLast(t, w) == IF t[w] = <<>> THEN Fails(t) ELSE Without(t, w, Len(t[w]))

(* ------------------------------------------------------------- expiries *)
Soonest(l) == FoldLeft(LAMBDA a, x : IF x.exp < a THEN x.exp ELSE a, Never, l)

(* what dropping an expired order of kind w, or else of the other kind, may  *)
(* do: some order with the soonest expiry goes, if that has passed           *)
Drop(t, w, now) ==
  LET Can(v) == LET e == Soonest(t[v]) IN IF e < now THEN {Without(t, v, i) : i \in {j \in DOMAIN t[v] : t[v][j].exp = e}} ELSE {}
  IN IF Can(w) # {} THEN Can(w) ELSE IF Can(3 - w) # {} THEN Can(3 - w) ELSE {Fails(t)}

(* --------------------------------------------------------------- prices *)
Add(a, b) == IF b > 0 /\ a > Top - b THEN Top
             ELSE IF b < 0 /\ a < Bottom - b THEN Bottom ELSE a + b
Better(side, p, q) == IF side = 1 THEN p < q ELSE p > q

(* a leaf as the walk shows it; orc = -1: no oracle price. Here keys are     *)
(* <<price or offset, age>>, where age rises with the sequence number for    *)
(* asks and falls for bids.                                                  *)
Item(side, x, w, now, orc) ==
  LET raw == IF w = 1 THEN x.k[1] ELSE Add(orc, x.k[1])
      over == w = 2 /\ x.plim # -1 /\ Better(side, raw, x.plim)
  IN [id |-> x.id, px |-> raw, w |-> w, q |-> x.q, age |-> x.k[2], fit |-> w = 1 \/ (raw >= 1 /\ raw < Top),
      ok |-> ~over /\ now < x.exp]
Clamped(i) == [i EXCEPT !.px = IF @ < 1 THEN 1 ELSE @]
Ahead(side, i, j) == Before(side, <<i.px, i.age>>, <<j.px, j.age>>)

Items(side, t, now, orc) ==
  LET all == [k \in DOMAIN t[1] |-> Item(side, t[1][k], 1, now, orc)]
             \o (IF orc = -1 THEN <<>> ELSE [k \in DOMAIN t[2] |-> Item(side, t[2][k], 2, now, orc)])
  IN SelectSeq(all, LAMBDA i : i.fit)
(* merged stably, so that nothing is assumed of the order within a tree *)
Walk(side, t, now, orc) == SortSeq(Items(side, t, now, orc), LAMBDA i, j : Ahead(side, i, j))

Valid(w) == SelectSeq(w, LAMBDA i : i.ok)
Best(w) == IF Valid(w) = <<>> THEN -1 ELSE Valid(w)[1].px
Depth(side, w, lim) == FoldLeft(LAMBDA a, i : IF Better(side, lim, i.px) THEN a ELSE a + i.q, 0, Valid(w))
Impact(w, q) == FoldLeft(LAMBDA a, i : IF a.px # -1 THEN a
                                       ELSE [sum |-> a.sum + i.q, px |-> IF a.sum + i.q >= q THEN i.px ELSE -1],
                         [sum |-> 0, px |-> -1], Valid(w)).px

(* the worst order: the last of the walk, where a pegged order whose price   *)
(* does not exist counts at the closest price that does                      *)
Worst(side, t, orc) ==
  LET f == t[1] # <<>>
      p == t[2] # <<>> /\ orc # -1
      i == Item(side, t[1][Len(t[1])], 1, 0, orc)
      j == Clamped(Item(side, t[2][Len(t[2])], 2, 0, orc))
  IN IF ~f /\ ~p THEN <<>>
     ELSE IF ~p \/ (f /\ Ahead(side, j, i)) THEN <<1, i.px>> ELSE <<2, j.px>>
DropWorst(side, t, orc) ==
  LET w == Worst(side, t, orc)
  IN IF w = <<>> THEN Fails(t) @@ [px |-> -1] ELSE RemoveLast(t, w[1]) @@ [px |-> w[2]]
=============================================================================
