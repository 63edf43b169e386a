--------------------------- MODULE BookSideTrace ---------------------------
(* Validates recorded sequences of operations on a book side; see            *)
(* EventHeapTrace for the lines. PROP chooses what is judged: C06 the maps,  *)
(* C07 the expiries, C08 prices and ranks.                                   *)
EXTENDS BookSide, Json, IOUtils

N == atoi(IOEnv.N)
PROP == IOEnv.PROP
Of(p) == PROP = p \/ PROP = "ALL"
VARIABLES file, bad

Start(l) == [t |-> <<<<>>, <<>>>>, leaf |-> <<>>, side |-> l.a.side]

(* the trees as observed *)
Known(s, l) == LET n == Len(s.leaf) + (IF l.a.op = "ins" THEN 1 ELSE 0)
               IN \A w \in 1..2 : \A i \in DOMAIN l.trees[w].add : l.trees[w].add[i] \in 1..n
Post(s, l) ==
  LET leaf == IF l.a.op = "ins" THEN Append(s.leaf, Leaf(s.side, l.a, Len(s.leaf) + 1)) ELSE s.leaf
      Tree(w) == LET o == s.t[w] d == l.trees[w]
                 IN SubSeq(o, 1, d.keep) \o [i \in DOMAIN d.add |-> leaf[d.add[i]]] \o SubSeq(o, Len(o) - d.tail + 1, Len(o))
      Same(w) == LET d == l.trees[w] IN d.add = <<>> /\ d.keep + d.tail = Len(s.t[w])
  IN [t |-> [w \in 1..2 |-> IF Same(w) THEN s.t[w] ELSE Tree(w)], leaf |-> leaf, side |-> s.side]

Same(s, l) == \A w \in 1..2 : LET d == l.trees[w] IN d.add = <<>> /\ d.keep + d.tail = Len(s.t[w])

(* the map itself: whatever a choosing operation chose, exactly that goes *)
Map(s, l, u) ==
  LET a == l.a
      o == Outcome(l.ok, l.ret, u.t)
      chosen == \/ ~l.ok /\ Same(s, l)
                \/ l.ok /\ \E w \in 1..2 :
                     LET c == SelectSeq(s.t[w], LAMBDA x : x.id = l.ret)
                     IN Len(c) = 1 /\ o = Without(s.t, w, Rank(s.side, s.t[w], c[1].k) + 1)
  IN CASE a.op = "ins" -> o = Insert(s.side, s.t, a.tr + 1, u.leaf[Len(u.leaf)])
       [] a.op = "rem" -> o = Erase(s.side, s.t, a.tr + 1, a.k)
       [] a.op = "remi" -> o = RemoveIth(s.t, a.tr + 1, a.i)
       [] a.op = "treeworst" -> o = RemoveLast(s.t, a.tr + 1)
       [] a.op \in {"rmexp", "rmworst"} -> chosen
       [] OTHER -> Same(s, l)

Ends(s, l, u) ==
  /\ \A w \in 1..2 :
       LET t == u.t[w] d == l.trees[w]
           first == IF t = <<>> THEN -1 ELSE t[1].id
           last == IF t = <<>> THEN -1 ELSE t[Len(t)].id
       IN /\ d.n = Len(t)
          /\ d.worst = last
          /\ d.min = IF s.side = 1 THEN first ELSE last
          /\ d.max = IF s.side = 1 THEN last ELSE first
  /\ l.empty = (u.t[1] = <<>> /\ u.t[2] = <<>>)
  /\ l.full => Free(u.t) <= 2
  /\ Free(u.t) < 2 => l.full

Expiry(u, l) ==
  \A w \in 1..2 :
    LET t == u.t[w] d == l.trees[w]
    IN IF t = <<>> THEN d.exp = -1
       ELSE d.exp = Soonest(t) /\ (d.exp = Never \/ (d.expid \in 1..Len(u.leaf) /\ u.leaf[d.expid].exp = d.exp))

Query(u, l) ==
  LET a == l.a
      w == Walk(u.side, u.t, a.now, a.orc)
      q == l.q
  IN /\ l.ok
     /\ q.walk = [i \in DOMAIN w |-> <<w[i].id, w[i].px, IF w[i].ok THEN 1 ELSE 0, w[i].w - 1>>]
     /\ q.valid = [i \in DOMAIN Valid(w) |-> Valid(w)[i].id]
     /\ q.best = Best(w)
     /\ a.orc # -1 => /\ q.depth = [i \in DOMAIN a.lims |-> Depth(u.side, w, a.lims[i])]
                      /\ q.impact = [i \in DOMAIN a.qs |-> Impact(w, a.qs[i])]

Judge(s, l, u) ==
  (IF ~Of("C06") \/ Map(s, l, u) THEN {} ELSE {"map"})
  \cup (IF ~Of("C06") \/ Ends(s, l, u) THEN {} ELSE {"ends"})
  \cup (IF ~Of("C07") \/ Expiry(u, l) THEN {} ELSE {"soonest"})
  \cup (IF ~Of("C07") \/ l.a.op # "rmexp" \/ Outcome(l.ok, l.ret, u.t) \in Drop(s.t, l.a.tr + 1, l.a.now) THEN {} ELSE {"expired"})
  \cup (IF ~Of("C08") \/ l.a.op # "query" \/ Query(u, l) THEN {} ELSE {"walk"})
  \cup (IF ~Of("C08") \/ l.a.op # "rmworst" \/ (Outcome(l.ok, l.ret, u.t) @@ [px |-> l.px]) = DropWorst(s.side, s.t, l.a.orc)
        THEN {} ELSE {"worst"})

Run(lines) ==
  FoldLeft(LAMBDA acc, l :
             IF acc.bad # {} THEN acc
             ELSE LET s == IF l.at = 0 THEN Start(l) ELSE acc.st[l.at]
                  IN IF "broken" \in DOMAIN l \/ ~Known(s, l) THEN [acc EXCEPT !.k = @ + 1, !.bad = {"broken"}]
                     ELSE LET u == Post(s, l)
                          IN [k |-> acc.k + 1, st |-> Append(SubSeq(acc.st, 1, l.at), u), bad |-> Judge(s, l, u)],
           [k |-> 0, st |-> <<>>, bad |-> {}], lines)

Verdict(f) ==
  LET r == Run(ndJsonDeserialize(IOEnv.TRACES \o "/" \o ToString(f) \o ".ndjson"))
  IN IF r.bad = {} THEN <<>> ELSE <<r.k, r.bad>>

Init == file \in 1..N /\ bad = <<"unread">>
Next == bad = <<"unread">> /\ file' = file /\ bad' = Verdict(file)
Conforms == bad = <<>> \/ bad = <<"unread">>
=============================================================================
