---------------------------- MODULE MarketTrace -----------------------------
(* Validates executions of the program against Market. TRACES is a directory *)
(* of files 1.ndjson .. N.ndjson, one execution each, of lines               *)
(*   {a, ok, ret, d, do}                                                     *)
(* action, whether the program accepted it, what it returned, and what is    *)
(* different in the state afterwards (do: open orders accounts); the first   *)
(* line gives the initial state. Lines with bk start from the last initial   *)
(* state again. Every line is judged from the state the program was in       *)
(* before it, for the aspects the property PROP speaks of.                   *)
EXTENDS MarketQuote, ClientView, Json, IOUtils

PROP == IOEnv.PROP
N == atoi(IOEnv.N)

VARIABLES file, bad

LOCAL Differ(f, want, got) == want[f] # got[f]

-----------------------------------------------------------------------------
(* Comparing states *)

Book(l) == l
(* new events get whatever position is free, older ones keep theirs *)
SameHeap(want, got) ==
  /\ Len(want) = Len(got)
  /\ \A k \in 1..Len(want) : want[k] = got[k] \/ (want[k].sl = -1 /\ want[k] = [got[k] EXCEPT !.sl = -1])
HeapPlaces(l) == Cardinality({l[k].sl : k \in 1..Len(l)}) = Len(l)

OosDiffer(fs, want, got) ==
  \/ Len(want.oos) # Len(got.oos)
  \/ \E k \in 1..Len(want.oos) : \E f \in fs : want.oos[k][f] # got.oos[k][f]

MDiffer(fs, want, got) == \E f \in fs : want.m[f] # got.m[f]

(* mside: the side an order of this action would match, -1 if unclear *)
Aspects(want, got, mside) ==
  (IF (mside # Ask /\ want.bids # got.bids) \/ (mside # Bid /\ want.asks # got.asks) THEN {"matched"} ELSE {})
  \cup (IF (mside # Bid /\ want.bids # got.bids) \/ (mside # Ask /\ want.asks # got.asks) THEN {"resting"} ELSE {})
  \cup (IF ~SameHeap(want.heap, got.heap) \/ ~HeapPlaces(got.heap) THEN {"events"} ELSE {})
  \cup (IF MDiffer({"seq"}, want, got) THEN {"seq"} ELSE {})
  \cup (IF MDiffer({"facc", "fref", "rracc", "favail"}, want, got) THEN {"fees"} ELSE {})
  \cup (IF MDiffer({"mvol", "tvol"}, want, got) \/ OosDiffer({"mv", "tv"}, want, got) THEN {"volume"} ELSE {})
  \cup (IF MDiffer({"bdt", "qdt"}, want, got) \/ want.vb # got.vb \/ want.vq # got.vq THEN {"vaults"} ELSE {})
  \cup (IF want.wb # got.wb \/ want.wq # got.wq THEN {"wallets"} ELSE {})
  \cup (IF MDiffer({"exp", "open"}, want, got) THEN {"expiry"} ELSE {})
  \cup (IF MDiffer({"ml"}, want, got) \/ OosDiffer({"pen"}, want, got) THEN {"penalty"} ELSE {})
  \cup (IF MDiffer({"qls", "bls", "mf", "tf", "feeadm", "ooadm", "ceadm", "cmadm", "stale"}, want, got)
        THEN {"params"} ELSE {})
  \cup (IF OosDiffer({"bb", "ab", "bq"}, want, got) THEN {"lots"} ELSE {})
  \cup (IF OosDiffer({"oo"}, want, got) THEN {"slots"} ELSE {})
  \cup (IF OosDiffer({"bf", "qf"}, want, got) THEN {"free"} ELSE {})
  \cup (IF OosDiffer({"lf"}, want, got) THEN {"lockedfees"} ELSE {})
  \cup (IF OosDiffer({"rr"}, want, got) THEN {"rebates"} ELSE {})
  \cup (IF OosDiffer({"ex", "ow", "dl", "num", "m"}, want, got) THEN {"accounts"} ELSE {})
  \cup (IF want.t # got.t \/ want.sl # got.sl \/ want.orc # got.orc THEN {"clock"} ELSE {})

Everything == {"matched", "resting", "events", "seq", "fees", "volume", "vaults", "wallets", "expiry",
               "penalty", "params", "lots", "slots", "free", "lockedfees", "rebates", "accounts", "clock",
               "ret", "accepted", "refused"}

(* l: the line, pre and post: the states around it *)
Outcome(l, pre, post, tie) ==
  LET a == l.a
      r == Apply(pre, a, tie)
      mside == IF a.op \in {"place", "take", "edit"} THEN Other(a.sd) ELSE -1
  IN CASE l.ok /\ ~r.ok -> {"accepted"}
       [] ~l.ok /\ r.ok -> {"refused"}
       [] ~l.ok /\ ~r.ok -> IF post # pre THEN {"atomic"} ELSE {}
       [] OTHER -> Aspects(r.s, post, mside) \cup (IF r.ret # l.ret THEN {"ret"} ELSE {})
                   \cup (IF r.s.lg # l.lg THEN {"logs"} ELSE {})

-----------------------------------------------------------------------------
(* Which differences concern which property *)

CancelOps == {"cancel", "ccid", "call", "prune"}
ConsumeOps == {"consume", "consumeg"}
FundOps == {"deposit", "refill", "settle", "settlex", "sweep"}
WindOps == {"setexp", "closem", "prune", "settlex", "closeooa"}

(* the signers named are not those the instruction asks for *)
Unentitled(s, a) ==
  CASE a.op \in {"place", "multi", "edit"} -> ~Placer(s, a)
    [] a.op = "take" -> a.ad # s.m.ooadm
    [] a.op \in {"cancel", "ccid", "call"} -> ~Trader(s, a)
    [] a.op \in {"prune", "closem", "setexp"} -> s.m.cmadm = 0 \/ a.ad # s.m.cmadm
    [] a.op = "settlex" -> s.m.cmadm = 0 \/ a.ad # s.m.cmadm \/ ~Owns(s, a)
                           \/ a.db # s.oos[a.oo].ow \/ a.dq # s.oos[a.oo].ow
    [] a.op \in ConsumeOps -> a.ad # s.m.ceadm
    [] a.op = "sweep" -> a.ad # s.m.feeadm
    [] a.op = "settle" -> \/ ~Trader(s, a)
                          \/ ~MayReceive(s.oos[a.oo], a.sg, a.db) \/ ~MayReceive(s.oos[a.oo], a.sg, a.dq)
    [] a.op \in {"setdel", "closeooa"} -> ~Owns(s, a) \/ s.oos[a.oo].ow # a.sg
    [] OTHER -> FALSE

HasPegged(s) == \E o \in Range(s.bids \o s.asks) : o.pg = 1
(* the account has orders the new one could meet *)
OwnAround(s, a) ==
  \/ a.op \in {"place", "edit"} /\ \E o \in Range(Side(s, Other(a.sd))) : o.own = a.oo
  \/ a.op = "multi" /\ \E o \in Range(s.bids \o s.asks) : o.own = a.oo
  \/ a.op = "take" /\ \E o \in Range(Side(s, Other(a.sd))) : s.oos[o.own].ow = a.sg
(* another account of the same owner has *)
KinAround(s, a) ==
  a.op \in {"place", "edit", "multi"} /\
  \E o \in Range(s.bids \o s.asks) : o.own # a.oo /\ s.oos[o.own].ow = s.oos[a.oo].ow
PeggedEvents(s) == \E e \in Range(s.heap) : e.ty = 0 /\ e.plim # -1
SelfEvents(s) == \E e \in Range(s.heap) : e.ty = 0 /\ e.own = e.tk
OldOrders(s) == \E o \in Range(s.bids \o s.asks) : OrderExpired(o, s.t)

(* the aspects of this action that PROP judges *)
Scope(s, a) ==
  LET p == a.op \in PlaceOps
      outcome == {"accepted", "refused"}
  IN CASE PROP = "ALL" -> Everything \cup {"atomic", "broken", "logs"}
       [] PROP = "C26" -> {"logs"}
       [] PROP = "C33" -> {"logs"} \cup (IF "by" \in DOMAIN a THEN Everything \cup {"atomic"} ELSE {})
       [] PROP \in {"C28", "C29"} -> IF "by" \in DOMAIN a THEN Everything \cup {"atomic"} ELSE {}
       [] PROP = "C02" -> IF p THEN {"matched", "events", "accepted", "refused", "volume"} ELSE {}
       [] PROP = "C03" -> IF p THEN {"matched", "resting", "ret", "slots"} \cup outcome ELSE {}
       [] PROP = "C04" -> IF p THEN {"wallets", "vaults", "free", "lots", "lockedfees", "resting", "events"} \cup outcome
                          ELSE {}
       [] PROP = "C05" -> IF p \/ a.op \in ConsumeOps \/ a.op \in FundOps
                          THEN {"fees", "volume", "free", "rebates", "lockedfees", "wallets", "vaults"} ELSE {}
       [] PROP = "C10" -> IF p THEN {"events", "penalty", "matched", "resting", "free", "slots", "lots"}
                                    \cup (IF a.rem # <<>> THEN outcome \cup {"volume"} ELSE {})
                          ELSE IF a.op \in ConsumeOps THEN Everything
                          ELSE IF a.op = "settle" THEN {"penalty"} ELSE {}
       [] PROP = "C12" -> IF a.op \in CancelOps THEN Everything
                          ELSE IF a.op = "edit" \/ (a.op = "multi" /\ a.can = 1)
                          THEN {"resting", "matched", "slots", "free", "lockedfees"} ELSE {}
       [] PROP = "C13" -> IF Unentitled(s, a) THEN {"accepted"}
                          ELSE IF a.op = "setdel" THEN Everything
                          ELSE {"accounts", "params"}
                               \cup (IF a.op \in {"cancel", "ccid", "call", "settle", "sweep"} THEN outcome ELSE {})
       [] PROP = "C14" -> IF a.op \in FundOps THEN Everything ELSE {}
       [] PROP = "C15" -> IF Expired(s) \/ a.op \in WindOps THEN Everything ELSE {"expiry"}
       [] PROP = "C16" -> IF p /\ s.orc.n > 0
                          THEN {"matched", "resting", "events", "lots", "slots"} \cup outcome
                          ELSE IF a.op \in {"orc", "tick"} THEN {"clock"} ELSE {}
       [] PROP = "C17" -> IF p /\ (OwnAround(s, a) \/ KinAround(s, a)) THEN Everything
                          ELSE IF a.op \in ConsumeOps /\ SelfEvents(s) THEN Everything ELSE {}
       [] PROP = "C18" -> IF p /\ (HasPegged(s) \/ (a.op \in {"place", "edit"} /\ a.pg = 1)) THEN Everything
                          ELSE IF a.op \in ConsumeOps /\ (PeggedEvents(s) \/ HasPegged(s)) THEN Everything
                          ELSE IF a.op \in CancelOps /\ HasPegged(s) THEN Everything ELSE {}
       [] PROP = "C19" -> IF a.op \in {"multi", "edit"} THEN Everything ELSE {}
       [] PROP = "C07" -> IF p /\ OldOrders(s) THEN {"matched", "resting", "events", "slots"} ELSE {}
       [] PROP = "C08" -> IF p THEN {"matched", "resting"} ELSE {}
       [] PROP = "C11" -> {"slots", "lots", "seq"}
       [] PROP = "C20" -> IF a.op = "closeooa" THEN Everything ELSE {"accounts"}
       [] PROP = "C23" -> IF a.must = 1 THEN {"refused", "free", "vaults", "wallets", "lockedfees"} ELSE {}
       [] OTHER -> {}

(* what PROP asks of the state and step, whatever the action *)
Always(l, pre, post, tie) ==
  LET inv(p, name, ok) == IF PROP \in {p, "ALL"} /\ ~ok THEN {name} ELSE {}
  IN inv("C01", "insolvent", Solvent(post) /\ NoDebts(post))
     \cup inv("C05", "counters", RebatesAccrued(post))
     \cup inv("C11", "incoherent", Coherent(post) /\ FreshIds(pre, post))
     \cup inv("C08", "unsorted", Sorted(post))
     \cup inv("C23", "stuck", ~l.ok => l.a.must = 0)
     \cup inv("C23", "leftover", (l.a.op = "closem" /\ l.ok) => post.vb = 0 /\ post.vq = 0)
     \cup inv("C10", "order-matters", Confluent(post))
     \cup (IF PROP \in {"C28", "C29", "C33", "ALL"} /\ "by" \in DOMAIN l.a THEN ChoiceWrong(pre, l.a) ELSE {})
     \cup (IF l.ok THEN Breaks(PROP, pre, l.a, post, tie) ELSE {})
     \cup inv("C26", "untold", l.ok => LogsTell(pre, l.a, post, l.lg))
     \cup inv("C15", "revived", (Expired(pre) /\ post.m.open = 1) => Expired(post))

GivenUp(pre, post) == {o.seq : o \in Range(pre.bids \o pre.asks)} \ {o.seq : o \in Range(post.bids \o post.asks)}
(* the other orders in which those may have been given up *)
Ties(pre, post) ==
  LET all == GivenUp(pre, post)
      old(side) == {o \in Range(Side(pre, side)) : o.seq \in all /\ OrderExpired(o, pre.t)}
      equal(x) == {o.seq : o \in {o \in x : \E p \in x : p.seq # o.seq /\ p.pg = o.pg /\ p.ts + p.tif = o.ts + o.tif}}
      open == equal(old(Bid)) \cup equal(old(Ask))
      n == Cardinality(open)
      rest == SetToSeq(all \ open)
  IN IF n \in 2..5
     THEN {f \o rest : f \in {f \in [1..n -> open] : \A i, j \in 1..n : i # j => f[i] # f[j]}}
     ELSE {}

Judge(l, pre, post) ==
  IF "broken" \in DOMAIN l THEN {"broken"}
  ELSE IF l.a.op = "quote"
  THEN (IF PROP \in {"C25", "ALL"} THEN QuoteWrong(pre, l.a, l.ret) ELSE {}) \cup (IF post = pre THEN {} ELSE {"changed"})
  ELSE IF l.a.op = "view"
  THEN (IF PROP \in {"C27", "C33", "ALL"} THEN ViewWrong(pre, l.a, l.ret) ELSE {}) \cup (IF post = pre THEN {} ELSE {"changed"})
  ELSE LET sc == Scope(pre, l.a)
           wrong(tie) == (IF sc = {} THEN {} ELSE Outcome(l, pre, post, tie) \cap sc) \cup Always(l, pre, post, tie)
           first == wrong(SetToSeq(GivenUp(pre, post)))
       IN IF first = {} \/ \E tie \in Ties(pre, post) : wrong(tie) = {} THEN {} ELSE first

-----------------------------------------------------------------------------
(* Reading executions *)

Patch(l, s) ==
  LET s1 == [f \in DOMAIN s |-> IF f \in DOMAIN l.d THEN l.d[f] ELSE s[f]]
  IN IF l.do = <<>> THEN s1
     ELSE [s1 EXCEPT !.oos = [k \in DOMAIN s1.oos |->
             LET c == SelectSeq(l.do, LAMBDA x : x.k = k) IN IF c = <<>> THEN s1.oos[k] ELSE c[1].v]]

(* the first line of an execution that does not conform, and in what *)
Run(lines) ==
  FoldLeft(LAMBDA acc, l :
             IF acc.bad # {} THEN acc
             ELSE IF l.a.op = "init" /\ "broken" \notin DOMAIN l
             THEN [k |-> acc.k + 1, s |-> l.d, base |-> l.d,
                   bad |-> IF "want" \in DOMAIN l /\ l.want # l.d THEN {"broken"} ELSE {}]
             ELSE LET pre == IF "bk" \in DOMAIN l THEN acc.base ELSE acc.s
                      post == Patch(l, pre)
                  IN [k |-> acc.k + 1, s |-> post, base |-> acc.base, bad |-> Judge(l, pre, post)],
           [k |-> 0, s |-> 0, base |-> 0, bad |-> {}], lines)

Verdict(f) ==
  LET r == Run(ndJsonDeserialize(IOEnv.TRACES \o "/" \o ToString(f) \o ".ndjson"))
  IN IF r.bad = {} THEN <<>> ELSE <<r.k, r.bad>>

Init == file \in 1..N /\ bad = <<"unread">>
Next == bad = <<"unread">> /\ file' = file /\ bad' = Verdict(file)

Conforms == bad = <<>> \/ bad = <<"unread">>
=============================================================================
