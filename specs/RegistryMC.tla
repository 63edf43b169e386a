----------------------------- MODULE RegistryMC -----------------------------
(* Small registries; the sequences of these operations are what the          *)
(* implementation is put through.                                            *)
EXTENDS Registry, TLC, SequencesExt, Json, IOUtils

Depth == atoi(IOEnv.DEPTH)
VARIABLES s, n, gone

Acts == <<
  [op |-> "mkidx", of |-> 1, sf |-> 1, ix |-> 1, pay |-> 1],
  [op |-> "mkidx", of |-> 2, sf |-> 1, ix |-> 2, pay |-> 3],
  [op |-> "mkidx", of |-> 1, sf |-> 0, ix |-> 1, pay |-> 2],
  [op |-> "mkidx", of |-> 1, sf |-> 1, ix |-> 2, pay |-> 1],
  [op |-> "rmidx", of |-> 1, sf |-> 1, ix |-> 1, dest |-> 4],
  [op |-> "rmidx", of |-> 1, sf |-> 0, ix |-> 1, dest |-> 1],
  [op |-> "rmidx", of |-> 2, sf |-> 1, ix |-> 1, dest |-> 2],
  [op |-> "rmidx", of |-> 2, sf |-> 1, ix |-> 2, dest |-> 2],
  [op |-> "mkoo", of |-> 1, sf |-> 1, ix |-> 1, num |-> 1, pay |-> 1, m |-> 1, dl |-> 0, nm |-> 1],
  [op |-> "mkoo", of |-> 1, sf |-> 1, ix |-> 1, num |-> 2, pay |-> 2, m |-> 2, dl |-> 2, nm |-> 32],
  [op |-> "mkoo", of |-> 1, sf |-> 1, ix |-> 1, num |-> 3, pay |-> 1, m |-> 1, dl |-> 0, nm |-> 0],
  [op |-> "mkoo", of |-> 1, sf |-> 1, ix |-> 1, num |-> 4, pay |-> 1, m |-> 1, dl |-> 0, nm |-> 1],
  [op |-> "mkoo", of |-> 2, sf |-> 1, ix |-> 2, num |-> 1, pay |-> 2, m |-> 1, dl |-> 1, nm |-> 33],
  [op |-> "mkoo", of |-> 2, sf |-> 1, ix |-> 2, num |-> 1, pay |-> 2, m |-> 0, dl |-> 1, nm |-> 3],
  [op |-> "mkoo", of |-> 2, sf |-> 1, ix |-> 2, num |-> 1, pay |-> 2, m |-> 1, dl |-> 1, nm |-> 3],
  [op |-> "mkoo", of |-> 2, sf |-> 1, ix |-> 1, num |-> 2, pay |-> 2, m |-> 1, dl |-> 0, nm |-> 1],
  [op |-> "mkoo", of |-> 1, sf |-> 0, ix |-> 1, num |-> 2, pay |-> 2, m |-> 1, dl |-> 0, nm |-> 1],
  [op |-> "rmoo", of |-> 1, sf |-> 1, ix |-> 1, ow |-> 1, num |-> 1, dest |-> 1],
  [op |-> "rmoo", of |-> 1, sf |-> 1, ix |-> 1, ow |-> 1, num |-> 2, dest |-> 3],
  [op |-> "rmoo", of |-> 1, sf |-> 1, ix |-> 1, ow |-> 1, num |-> 3, dest |-> 1],
  [op |-> "rmoo", of |-> 1, sf |-> 0, ix |-> 1, ow |-> 1, num |-> 2, dest |-> 1],
  [op |-> "rmoo", of |-> 2, sf |-> 1, ix |-> 2, ow |-> 1, num |-> 2, dest |-> 2],
  [op |-> "rmoo", of |-> 2, sf |-> 1, ix |-> 1, ow |-> 1, num |-> 2, dest |-> 2],
  [op |-> "rmoo", of |-> 1, sf |-> 1, ix |-> 2, ow |-> 1, num |-> 2, dest |-> 1],
  [op |-> "rmoo", of |-> 2, sf |-> 1, ix |-> 2, ow |-> 2, num |-> 1, dest |-> 2],
  [op |-> "setdel", of |-> 1, sf |-> 1, ow |-> 1, num |-> 2, dl |-> 4],
  [op |-> "setdel", of |-> 1, sf |-> 1, ow |-> 1, num |-> 2, dl |-> 0],
  [op |-> "setdel", of |-> 2, sf |-> 1, ow |-> 1, num |-> 2, dl |-> 2],
  [op |-> "setdel", of |-> 1, sf |-> 0, ow |-> 1, num |-> 2, dl |-> 1] >>
  \o [i \in 1..8 |-> [op |-> "poke", ow |-> 1, num |-> 2, f |-> i, v |-> 1]]
  \o << [op |-> "poke", ow |-> 1, num |-> 2, f |-> 8, v |-> 0],
        [op |-> "poke", ow |-> 1, num |-> 2, f |-> 9, v |-> 0] >>

(* what the Rust client does *)
Finds == [i \in 1..6 |->
            LET x == << <<1, 1, 1>>, <<1, 2, 1>>, <<1, 1, 2>>, <<2, 1, 3>>, <<1, 0, 1>>, <<2, 2, 33>> >>[i]
            IN [op |-> "find", of |-> x[1], pay |-> (i % 5) + 1, m |-> x[2], nm |-> x[3]]]
RustActs == SelectSeq(Acts, LAMBDA a : a.op \in {"mkidx", "mkoo", "rmoo"} /\ a.sf = 1 /\ a.ix = a.of) \o Finds

Idx(p) == [op |-> "mkidx", of |-> p, sf |-> 1, ix |-> p, pay |-> p]
Bulk(p, k) == [op |-> "bulk", of |-> p, n |-> k]
Setups == <<
  [id |-> 1, prefix |-> <<>>],
  [id |-> 2, prefix |-> <<Idx(1), Bulk(1, 2), Idx(2), Bulk(2, 1)>>],
  [id |-> 3, prefix |-> <<Idx(1), Bulk(1, 3), Idx(2)>>] >>
Crowd == << [id |-> 4, prefix |-> <<Idx(1), Bulk(1, 128), Bulk(1, 127)>>], [id |-> 5, prefix |-> <<Idx(1), Bulk(1, 128), Bulk(1, 128), Idx(2)>>] >>
CrowdActs == [i \in 1..4 |-> [op |-> "mkoo", of |-> 1, sf |-> 1, ix |-> 1, num |-> 254 + i, pay |-> 1, m |-> 1, dl |-> 0,
                              nm |-> 1]]
  \o << [op |-> "rmoo", of |-> 1, sf |-> 1, ix |-> 1, ow |-> 1, num |-> 1, dest |-> 3],
        [op |-> "rmoo", of |-> 1, sf |-> 1, ix |-> 1, ow |-> 1, num |-> 255, dest |-> 3],
        [op |-> "rmidx", of |-> 1, sf |-> 1, ix |-> 1, dest |-> 1] >>
Crowded == IOEnv.FOCUS = "crowd"
Ops == IF Crowded THEN CrowdActs ELSE IF IOEnv.FOCUS = "rust" THEN RustActs ELSE Acts
From == IF Crowded THEN Crowd ELSE Setups

ASSUME IOEnv.OUT = "" \/ JsonSerialize(IOEnv.OUT, [acts |-> Ops, setups |-> From])

RECURSIVE Prepared(_, _)
Prepared(x, l) == IF l = <<>> THEN x ELSE Prepared(Done(x, Head(l)), Tail(l))

Init == \E i \in DOMAIN From : s = Prepared(Start, From[i].prefix) /\ n = 0 /\ gone = {}
Next ==
  /\ n < Depth
  /\ \E i \in DOMAIN Ops :
       /\ Can(s, Ops[i])
       /\ s' = Done(s, Ops[i])
       /\ n' = n + 1
       /\ gone' = (IF Ops[i].op = "rmidx" THEN {g \in gone : g[1] # Ops[i].of} ELSE gone)
                  \cup {<<c.ow, c.num>> : c \in {c \in s.accounts : At(s', c.ow, c.num) = {}}}

View == <<s, n, gone>>

(* A registry lists exactly the accounts there are, by number.               *)
Lists == \A p \in Owners : {s.regs[p].list[i] : i \in DOMAIN s.regs[p].list} = {c.num : c \in {c \in s.accounts : c.ow = p}}
Ordered == \A p \in Owners : \A i, j \in DOMAIN s.regs[p].list : i < j => s.regs[p].list[i] < s.regs[p].list[j]
Counts == \A p \in Owners : \A c \in s.accounts : c.ow = p => c.num \in 1..s.regs[p].cnt
Registered == \A c \in s.accounts : s.regs[c.ow].ex = 1
(* While it exists, no number comes back.                                    *)
NoReuse == \A c \in s.accounts : <<c.ow, c.num>> \notin gone
Numbered == \A c \in s.accounts : c.who = c.ow /\ c.no = c.num
(* Nothing with funds in it disappears.                                      *)
Kept == [][\A c \in s.accounts : At(s', c.ow, c.num) = {} => Vacant(c)]_s
=============================================================================
