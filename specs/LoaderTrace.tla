----------------------------- MODULE LoaderTrace ----------------------------
(* Validates recorded loads and comparisons; see MarketTrace for the files.  *)
EXTENDS Loader, TLC, Sequences, SequencesExt, Json, IOUtils

N == atoi(IOEnv.N)
VARIABLES file, bad

Judge(l) ==
  CASE l.a.op = "load" ->
         (IF l.ok = Loads(l.a) THEN {} ELSE {IF l.ok THEN "accepted" ELSE "refused"})
         \cup (IF l.right THEN {} ELSE {"content"})
         \cup (IF l.same THEN {} ELSE {"touched"})
    [] l.a.op = "key" ->
         (IF l.some = Set(l.a.x) /\ l.none = ~Set(l.a.x) THEN {} ELSE {"set"})
         \cup (IF l.as = Names(l.a.x) THEN {} ELSE {"named"})
         \cup (IF l.eq = EqualsKey(l.a.x, l.a.y) /\ l.eqr = l.eq THEN {} ELSE {"equal"})
         \cup (IF l.same = Same(l.a.x, l.a.y) /\ l.acc THEN {} ELSE {"same"})
    [] OTHER -> {}

Run(lines) ==
  FoldLeft(LAMBDA acc, l :
             IF acc.bad # {} THEN acc
             ELSE IF "broken" \in DOMAIN l THEN [acc EXCEPT !.k = @ + 1, !.bad = {"broken"}]
             ELSE [k |-> acc.k + 1, bad |-> Judge(l)],
           [k |-> 0, bad |-> {}], lines)

Verdict(f) ==
  LET t == Run(ndJsonDeserialize(IOEnv.TRACES \o "/" \o ToString(f) \o ".ndjson"))
  IN IF t.bad = {} THEN <<>> ELSE <<t.k, t.bad>>

Init == file \in 1..N /\ bad = <<"unread">>
Next == bad = <<"unread">> /\ file' = file /\ bad' = Verdict(file)
Conforms == bad = <<>> \/ bad = <<"unread">>
=============================================================================
