------------------------------ MODULE AccessMC ------------------------------
EXTENDS Access, TLC, SequencesExt, Json, IOUtils

VARIABLES setup, a

Attempts ==
  UNION {UNION {{[op |-> "try", ins |-> i, by |-> b, role |-> r, sub |-> s] : b \in Acting(i), s \in Subs(r)}
                : r \in Roles(i)} : i \in Instructions}
  \cup UNION {{[op |-> "try", ins |-> i, by |-> b, role |-> "", sub |-> "none"] : b \in Acting(i)} : i \in Instructions}

Setups == {[id |-> 10 * c + s, conf |-> c, stage |-> s] : c \in 0..1, s \in 1..3}

ASSUME IOEnv.OUT = "" \/ JsonSerialize(IOEnv.OUT, [acts |-> SetToSeq(Attempts), setups |-> SetToSeq(Setups)])

Init == setup \in Setups /\ a \in Attempts
Next == UNCHANGED <<setup, a>>

V == Verdict(setup, a)
(* Accounts of other markets, other programs and other kinds never work, nor *)
(* does anything without the signature it takes.                             *)
NoOther == (a.sub = "other" /\ a.ins # "setdel") => V # "works"
NoFake == a.sub \in {"fake", "empty", "type", "swap"} /\ a.role \notin {"oo_admin", "ce_admin"} /\ setup.stage \in Stages(a.ins) => V = "refused"
Signed == (a.sub = "unsigned" /\ setup.stage \in Stages(a.ins) /\ a.role \notin {"oo_admin", "ce_admin"}) => V = "refused"
Admins == (setup.conf = 1 /\ a.role \in {"oo_admin", "ce_admin"} /\ setup.stage \in Stages(a.ins)) => V = "refused"
Delegates == (a.by = 3 /\ a.ins = "settle" /\ a.role \in Users /\ setup.stage \in Stages(a.ins)) => V = "refused"
Usable == \A i \in Instructions : \E t \in 1..3 : Verdict([setup EXCEPT !.stage = t], [a EXCEPT !.ins = i, !.sub = "none"]) = "works"
=============================================================================
