------------------------------ MODULE Registry ------------------------------
(* Owners' registries of open orders accounts, and those accounts. State:    *)
(*   regs      per owner [ex, cnt, list]: there is one, how many accounts it *)
(*             ever made, the numbers of those it lists                      *)
(*   accounts  the accounts there are: address (ow, num), the owner who and  *)
(*             number no written in them, market m, delegate dl, length nm   *)
(*             of the name, and fields f: base in bids, base in asks, free   *)
(*             base, free quote, locked fees, rebates, penalties, quote in   *)
(*             bids, layout version; free: no order is recorded              *)
(* An instruction names owner of (signing if sf = 1), the registry of ix,    *)
(* account (ow, num), and who pays or receives rent. A client that finds or  *)
(* makes (op "find") an account of owner of by market m and name does so in  *)
(* up to two instructions, paid by pay.                                      *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Owners, Most
People == 1..5

Rent(bytes) == (bytes + 128) * 6960
Space(n) == 17 + 32 * n
AccountSpace == 1264

Start == [regs |-> [p \in Owners |-> [ex |-> 0, cnt |-> 0, list |-> <<>>]], accounts |-> {}]
Nothing == [p \in People |-> 0]
Gain(p, x) == [Nothing EXCEPT ![p] = x]

At(s, ow, num) == {c \in s.accounts : c.ow = ow /\ c.num = num}
(* older accounts (version 0) do not know the quote in their bids *)
Vacant(c) == (\A i \in 1..7 : c.f[i] = 0) /\ (c.f[9] = 0 \/ c.f[8] = 0)
(* whoever pays signs *)
Signs(a) == a.sf = 1 \/ ("pay" \in DOMAIN a /\ a.pay = a.of)
Own(a) == Signs(a) /\ a.ix = a.of

Without(l, n) == SelectSeq(l, LAMBDA x : x # n)
Fresh(p, n, m, dl, nm) ==
  [ow |-> p, num |-> n, who |-> p, no |-> n, m |-> m, dl |-> dl, nm |-> nm,
   f |-> <<0, 0, 0, 0, 0, 0, 0, 0, 1>>, free |-> TRUE]

(* those that are asked for *)
Wanted(s, a) == {c \in s.accounts : c.who = a.of /\ c.m = a.m /\ c.nm = a.nm}

Can(s, a) ==
  CASE a.op = "look" -> TRUE
    [] a.op = "mkidx" -> Own(a) /\ s.regs[a.of].ex = 0
    [] a.op = "rmidx" -> Own(a) /\ s.regs[a.of].ex = 1 /\ s.regs[a.of].list = <<>>
    [] a.op = "mkoo" ->
         /\ Own(a) /\ s.regs[a.of].ex = 1
         /\ a.num = s.regs[a.of].cnt + 1
         /\ Len(s.regs[a.of].list) < Most
         /\ a.m # 0 /\ a.nm <= 32
    [] a.op = "rmoo" ->
         /\ Own(a) /\ s.regs[a.of].ex = 1
         /\ \E c \in At(s, a.ow, a.num) : c.who = a.of /\ Vacant(c)
    [] a.op = "setdel" -> a.sf = 1 /\ \E c \in At(s, a.ow, a.num) : c.who = a.of
    [] a.op = "poke" -> At(s, a.ow, a.num) # {}
    [] a.op = "find" -> Wanted(s, a) # {} \/ (a.m # 0 /\ a.nm <= 32 /\ Len(s.regs[a.of].list) < Most)
    [] a.op = "bulk" -> s.regs[a.of].ex = 1 /\ Len(s.regs[a.of].list) + a.n <= Most

(* with a registry *)
Listed(s, p) == IF s.regs[p].ex = 1 THEN s ELSE [s EXCEPT !.regs[p] = [ex |-> 1, cnt |-> 0, list |-> <<>>]]

Done(s, a) ==
  CASE a.op = "look" -> s
    [] a.op = "mkidx" -> [s EXCEPT !.regs[a.of] = [ex |-> 1, cnt |-> 0, list |-> <<>>]]
    [] a.op = "rmidx" -> [s EXCEPT !.regs[a.of] = [ex |-> 0, cnt |-> 0, list |-> <<>>]]
    [] a.op = "mkoo" ->
         [regs |-> [s.regs EXCEPT ![a.of].cnt = @ + 1, ![a.of].list = Append(@, a.num)],
          accounts |-> s.accounts \cup {Fresh(a.of, a.num, a.m, a.dl, a.nm)}]
    [] a.op = "rmoo" ->
         [regs |-> [s.regs EXCEPT ![a.of].list = Without(@, a.num)],
          accounts |-> s.accounts \ At(s, a.ow, a.num)]
    [] a.op = "setdel" ->
         [s EXCEPT !.accounts = (s.accounts \ At(s, a.ow, a.num))
                                \cup {[c EXCEPT !.dl = a.dl] : c \in At(s, a.ow, a.num)}]
    [] a.op = "poke" ->
         [s EXCEPT !.accounts = (s.accounts \ At(s, a.ow, a.num))
                                \cup {[c EXCEPT !.f = [@ EXCEPT ![a.f] = a.v]] : c \in At(s, a.ow, a.num)}]
    [] a.op = "find" ->
         LET n == s.regs[a.of].cnt + 1
         IN IF Wanted(s, a) # {} THEN s
            ELSE [regs |-> [Listed(s, a.of).regs EXCEPT ![a.of].cnt = n, ![a.of].list = Append(@, n)],
                  accounts |-> s.accounts \cup {Fresh(a.of, n, a.m, 0, a.nm)}]
    [] a.op = "bulk" ->
         LET n == s.regs[a.of].cnt
         IN [regs |-> [s.regs EXCEPT ![a.of].cnt = @ + a.n, ![a.of].list = @ \o [i \in 1..a.n |-> n + i]],
             accounts |-> s.accounts \cup {Fresh(a.of, n + i, 1, 0, 1) : i \in 1..a.n}]

(* what is left of it when it cannot be done *)
Failed(s, a) == IF a.op = "find" THEN Listed(s, a.of) ELSE s

(* what the instruction costs and pays back *)
Paid(a) ==
  CASE a.op = "mkidx" -> Gain(a.pay, -Rent(Space(0)))
    [] a.op = "rmidx" -> Gain(a.dest, Rent(Space(0)))
    [] a.op = "mkoo" -> Gain(a.pay, -(Rent(AccountSpace) + 32 * 6960))
    [] a.op = "rmoo" -> Gain(a.dest, Rent(AccountSpace) + 32 * 6960)
    [] a.op = "bulk" -> Gain(a.of, -a.n * (Rent(AccountSpace) + 32 * 6960))
    [] OTHER -> Nothing

(* and whatever was done, in the course of finding *)
PaidFinding(s, t, a) ==
  Gain(a.pay, -((t.regs[a.of].ex - s.regs[a.of].ex) * Rent(Space(0))
                + Cardinality(t.accounts \ s.accounts) * (Rent(AccountSpace) + 32 * 6960)))

(* A registry takes as much room as it needs and holds the rent for it.      *)
Room(reg, len, lam) ==
  IF reg.ex = 1 THEN len = Space(Len(reg.list)) /\ lam = Rent(len) ELSE len = 0 /\ lam = 0
=============================================================================
