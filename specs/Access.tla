------------------------------- MODULE Access -------------------------------
(* Which accounts an instruction works with. An attempt has instruction ins, *)
(* done by a person for their own account (1), or by the delegate (3) of     *)
(* person 2, with one account, in role role, exchanged:                      *)
(*   unsigned  it did not sign            stranger  somebody else, signing   *)
(*   absent    left out                   empty     an account without data  *)
(*   other     the same thing of another market, or their account on it      *)
(*   theirs    the same thing of somebody else                               *)
(*   swap      the counterpart for the other side or token                   *)
(*   type      a different kind of account of the program                    *)
(*   fake      the same content in an account of another program             *)
(*   delegate  the delegate in place of the owner                            *)
(* For an admin, other is the same admin of another market, and swap another *)
(* admin of this market.                                                     *)
(* Every account has a delegate. Setup: conf 1 if the market names admins    *)
(* for placing and consuming;                                                *)
(* stage 1 trading, 2 expired, 3 expired and everything paid out.            *)
EXTENDS Integers, Sequences

Placing == {"placebid", "placeask", "pegbid", "pegask", "editbid", "editpeg"}
Taking == {"takebid", "takeask"}
Batch == {"multi", "replace"}
Cancelling == {"cancel", "ccid", "call"}
Crank == {"consume", "consumeg"}
Paying == {"deposit", "refill"}
Instructions == Placing \cup Taking \cup Batch \cup Cancelling \cup Crank \cup Paying
  \cup {"prune", "settle", "settlex", "sweep", "setexp", "setdel", "closem", "closeooa", "oset", "oclose"}

Book == {"bids", "asks"}
Vaults == {"base_vault", "quote_vault"}
Oracles == {"oracle_a", "oracle_b"}
Users == {"user_base", "user_quote"}

Roles(ins) ==
  CASE ins \in Placing -> {"signer", "ooa", "oo_admin", "user_token", "market", "heap", "vault", "token"} \cup Book \cup Oracles
    [] ins \in Taking -> {"signer", "penalty_payer", "market", "authority", "heap", "token", "sys", "oo_admin"}
                         \cup Book \cup Vaults \cup Users \cup Oracles
    [] ins \in Batch -> {"signer", "ooa", "oo_admin", "market", "heap", "token"} \cup Book \cup Vaults \cup Users \cup Oracles
    [] ins \in Cancelling -> {"signer", "ooa", "market"} \cup Book
    [] ins = "prune" -> {"cm_admin", "ooa", "market"} \cup Book
    [] ins \in Crank -> {"ce_admin", "market", "heap"}
    [] ins \in Paying -> {"owner", "ooa", "market", "token"} \cup Users \cup Vaults
    [] ins = "settle" -> {"owner", "penalty_payer", "ooa", "market", "authority", "referrer", "token", "sys"} \cup Users \cup Vaults
    [] ins = "settlex" -> {"cm_admin", "owner", "penalty_payer", "ooa", "market", "authority", "referrer", "token", "sys"}
                          \cup Users \cup Vaults
    [] ins = "sweep" -> {"fee_admin", "market", "authority", "quote_vault", "receiver", "token"}
    [] ins = "setexp" -> {"cm_admin", "market"}
    [] ins = "setdel" -> {"owner", "ooa"}
    [] ins = "closem" -> {"cm_admin", "market", "heap", "dest", "token"} \cup Book
    [] ins = "closeooa" -> {"owner", "indexer", "ooa", "dest", "sys"}
    [] ins = "oset" -> {"owner", "oracle"}
    [] ins = "oclose" -> {"owner", "oracle", "dest", "token"}

Subs(role) ==
  CASE role \in {"signer", "penalty_payer"} -> {"unsigned", "stranger"}
    [] role = "owner" -> {"unsigned", "stranger", "delegate"}
    [] role \in {"cm_admin", "fee_admin"} -> {"unsigned", "stranger", "other", "swap"}
    [] role \in {"oo_admin", "ce_admin"} -> {"unsigned", "stranger", "other", "swap", "absent"}
    [] role = "market" -> {"other", "type", "fake", "empty"}
    [] role = "authority" -> {"other", "stranger"}
    [] role \in Book -> {"other", "swap", "type", "fake", "empty"}
    [] role = "heap" -> {"other", "type", "fake", "empty"}
    [] role \in Vaults \cup {"vault"} -> {"other", "swap", "theirs", "fake", "empty"}
    [] role \in Users \cup {"user_token", "receiver"} -> {"theirs", "swap", "fake", "empty"}
    [] role = "referrer" -> {"absent", "theirs", "swap", "fake", "empty"}
    [] role \in Oracles -> {"other", "swap", "absent", "type", "fake", "empty"}
    [] role = "oracle" -> {"other", "type", "fake", "empty"}
    [] role = "ooa" -> {"other", "theirs", "type", "fake", "empty"}
    [] role = "indexer" -> {"other", "type", "fake", "empty"}
    [] role = "dest" -> {"stranger"}
    [] role \in {"token", "sys"} -> {"fake", "empty"}

(* When the instruction can be done at all *)
Stages(ins) ==
  CASE ins \in Placing \cup Taking \cup Batch \cup Paying \cup {"setexp"} -> {1}
    [] ins \in {"prune"} -> {2}
    [] ins = "settlex" -> {2}
    [] ins \in Cancelling \cup Crank \cup {"settle", "sweep"} -> {1, 2}
    [] ins = "closem" -> {3}
    [] OTHER -> {1, 2, 3}

Acting(ins) == IF ins \in Placing \cup Batch \cup Cancelling \cup {"settle"} THEN {1, 3} ELSE {1}

(* Does the instruction take from this token account, so that only its owner *)
(* can have asked for it?                                                    *)
Source(ins, role) ==
  \/ ins \in Placing \cup Batch \cup Paying
  \/ ins = "takebid" /\ role = "user_quote"
  \/ ins = "takeask" /\ role = "user_base"

(* Exchanges nobody can object to, or that the properties leave open         *)
Free(ins, by, role, sub, conf) ==
  \/ role = "penalty_payer" /\ sub = "stranger"
  \/ role = "dest"
  \/ role \in {"receiver", "referrer"} /\ sub \in {"theirs", "absent"}
  \/ role \in Users /\ sub = "theirs" /\ ins \in Taking /\ ~Source(ins, role)
  \/ role \in Users /\ sub = "theirs" /\ ins = "settle" /\ by = 1
  \/ role \in {"oo_admin", "ce_admin"} /\ conf = 0
  \/ role = "ooa" /\ sub = "theirs" /\ ins \in Paying \cup {"prune", "settlex"}
  \/ role = "ooa" /\ sub = "other" /\ ins = "setdel"
  \* the close market admin acts, whoever accompanies them
  \/ role = "owner" /\ ins = "settlex" /\ sub \in {"stranger", "delegate"}
  \/ role = "owner" /\ sub = "delegate" /\ ins = "settle"

Verdict(setup, a) ==
  IF setup.stage \notin Stages(a.ins) THEN "any"
  ELSE IF a.sub = "none" THEN "works"
  ELSE IF Free(a.ins, a.by, a.role, a.sub, setup.conf) THEN "any"
  ELSE "refused"
=============================================================================
