---------------------------- MODULE RegistryTrace ---------------------------
(* Validates recorded instructions on registries; see MarketTrace for the    *)
(* files and EventHeapTrace for at.                                          *)
EXTENDS Registry, TLC, SequencesExt, Json, IOUtils

N == atoi(IOEnv.N)
VARIABLES file, bad

Post(l) ==
  [regs |-> [p \in Owners |-> [ex |-> l.regs[p].ex, cnt |-> l.regs[p].cnt, list |-> l.regs[p].list]],
   accounts |-> ToSet(l.accounts)]

(* what a client finds for each person, and for one without a registry; the  *)
(* books of market m are marked with 10 m + 1 and 10 m + 2                   *)
Found(t, look) ==
  LET once(q) == Len(q) = Cardinality(ToSet(q))
      same(q, x) == once(q) /\ ToSet(q) = x
  IN /\ Len(look) = Cardinality(Owners) + 1
     /\ \A p \in DOMAIN look :
          LET x == look[p]
              listed == IF p \in Owners THEN ToSet(t.regs[p].list) ELSE {}
              acc(n) == CHOOSE c \in t.accounts : c.ow = p /\ c.num = n
              here(m) == {n \in listed : acc(n).m = m}
          IN /\ same(x.all, listed)
             /\ \A m \in 1..2 :
                  /\ same(x.here[m], here(m))
                  /\ x.first[m] \in (IF here(m) = {} THEN {0} ELSE here(m))
             /\ same([i \in DOMAIN x.loaded |-> x.loaded[i].num], listed)
             /\ \A i \in DOMAIN x.loaded :
                  LET y == x.loaded[i]
                      c == acc(y.num)
                  IN y = [num |-> c.num, who |-> c.who, m |-> c.m, mk |-> c.m, dl |-> c.dl, no |-> c.no, nm |-> c.nm,
                          books |-> <<10 * c.m + 1, 10 * c.m + 2>>]

(* what the Rust client finds: everybody's accounts, and whether it takes    *)
(* them for theirs                                                           *)
FoundByRust(t, look) ==
  /\ Len(look) = Cardinality(Owners) + 1
  /\ \A p \in DOMAIN look :
       LET mine == {c \in t.accounts : c.who = p}
           told(c) == [ow |-> c.ow, num |-> c.num, who |-> c.who, no |-> c.no, m |-> c.m, dl |-> c.dl, nm |-> c.nm]
       IN /\ Len(look[p].found) = Cardinality(mine)
          /\ ToSet(look[p].found) = {told(c) : c \in mine}
          /\ ToSet(look[p].own) = {<<c.ow, c.num, p, p, c.no>> : c \in mine}

Judge(s, l, t) ==
  LET can == Can(s, l.a)
      want == IF l.ok THEN Done(s, l.a) ELSE Failed(s, l.a)
  IN IF l.ok # can THEN {IF l.ok THEN "allowed" ELSE "refused"}
     ELSE (IF t.regs = want.regs THEN {} ELSE {"registry"})
          \cup (IF t.accounts = want.accounts THEN {} ELSE {"accounts"})
          \cup (IF l.gain = (IF l.a.op = "find" THEN PaidFinding(s, want, l.a) ELSE IF l.ok THEN Paid(l.a) ELSE Nothing) THEN {} ELSE {"rent"})
          \cup (IF \A p \in Owners : Room(t.regs[p], l.regs[p].len, l.regs[p].lam) THEN {} ELSE {"room"})
          \cup (IF l.a.op = "find" /\ l.ok /\ ~\E c \in Wanted(t, l.a) : c.ow = l.a.of /\ c.num = l.ret THEN {"other"} ELSE {})
          \cup (IF "rlook" \notin DOMAIN l \/ FoundByRust(t, l.rlook) THEN {} ELSE {"lookup"})
          \cup (IF "look" \notin DOMAIN l \/ Found(t, l.look) THEN {} ELSE {"lookup"})

Run(lines) ==
  FoldLeft(LAMBDA acc, l :
             IF acc.bad # {} THEN acc
             ELSE IF "broken" \in DOMAIN l THEN [acc EXCEPT !.k = @ + 1, !.bad = {"broken"}]
             ELSE LET s == IF l.at = 0 THEN Start ELSE acc.st[l.at]
                      t == Post(l)
                  IN [k |-> acc.k + 1, st |-> Append(SubSeq(acc.st, 1, l.at), t), bad |-> Judge(s, l, t)],
           [k |-> 0, st |-> <<>>, bad |-> {}], lines)

Verdict(f) ==
  LET r == Run(ndJsonDeserialize(IOEnv.TRACES \o "/" \o ToString(f) \o ".ndjson"))
  IN IF r.bad = {} THEN <<>> ELSE <<r.k, r.bad>>

Init == file \in 1..N /\ bad = <<"unread">>
Next == bad = <<"unread">> /\ file' = file /\ bad' = Verdict(file)
Conforms == bad = <<>> \/ bad = <<"unread">>
=============================================================================
