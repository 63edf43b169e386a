------------------------------- MODULE Cache --------------------------------
(* The client's fetcher that remembers accounts: several requests at a time, *)
(* for one account or for all accounts of a kind, over a node whose answers  *)
(* take a while.                                                             *)
(*                                                                           *)
(* Operations: one, all (request r asks for account k; for all accounts of   *)
(* kind c), answer and fail (the node answers, or the fetch fails, for the   *)
(* target k or c), write (the node's account k becomes v, 0 for none), clear *)
(* (everything remembered is forgotten), drop (request r is given up).       *)
(*                                                                           *)
(* State: node, its accounts; kept, the ones remembered; lists, the kinds    *)
(* remembered and their accounts; wait, what each request waits for; busy,   *)
(* the fetches under way; calls, how many were ever started.                 *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Accounts, Kinds, Kind, Requests

KindOf == <<1, 1, 2>>

None == <<>>
Failure == <<-1>>

Start == [node |-> [k \in Accounts |-> 0], kept |-> [k \in Accounts |-> 0],
          lists |-> [c \in Kinds |-> None], wait |-> [r \in Requests |-> None],
          busy |-> {}, calls |-> 0]

Sorted(S) == IF S = {} THEN <<>> ELSE
  LET RECURSIVE F(_)
      F(T) == IF T = {} THEN <<>> ELSE LET m == CHOOSE x \in T : \A y \in T : x <= y IN <<m>> \o F(T \ {m})
  IN F(S)
(* What a list of accounts is answered as *)
Told(ks, of) == LET s == Sorted(ks) IN [i \in 1..Len(s) |-> <<s[i], of[s[i]]>>]

(* Each gives the new state and the answers given: request and answer        *)
Ask(st, r, target, there, said) ==
  IF st.wait[r] # None THEN [st |-> st, ans |-> {}]
  ELSE IF there THEN [st |-> st, ans |-> {<<r, said>>}]
  ELSE [st |-> [st EXCEPT !.wait[r] = target, !.busy = @ \cup {target},
                          !.calls = @ + (IF target \in st.busy THEN 0 ELSE 1)],
        ans |-> {}]

Waiting(st, target) == {r \in Requests : st.wait[r] = target}

(* The fetch of target is over *)
Over(st, target, said) ==
  [st |-> [st EXCEPT !.busy = @ \ {target}, !.wait = [r \in Requests |-> IF @[r] = target THEN None ELSE @[r]]],
   ans |-> {<<r, said>> : r \in Waiting(st, target)}]

Members(st, c) == {k \in Accounts : Kind[k] = c /\ st.node[k] # 0}

Step(st, a) ==
  CASE a.op = "one" -> Ask(st, a.r, <<"one", a.k>>, st.kept[a.k] # 0, <<st.kept[a.k]>>)
    [] a.op = "all" -> Ask(st, a.r, <<"all", a.c>>, st.lists[a.c] # None,
                           IF st.lists[a.c] = None THEN None ELSE Told(st.lists[a.c][1], st.kept))
    [] a.op = "answer" /\ "k" \in DOMAIN a ->
         IF Waiting(st, <<"one", a.k>>) = {} THEN [st |-> st, ans |-> {}]
         ELSE IF st.node[a.k] = 0 THEN Over(st, <<"one", a.k>>, Failure)
         ELSE Over([st EXCEPT !.kept[a.k] = st.node[a.k]], <<"one", a.k>>, <<st.node[a.k]>>)
    [] a.op = "answer" /\ "c" \in DOMAIN a ->
         IF Waiting(st, <<"all", a.c>>) = {} THEN [st |-> st, ans |-> {}]
         ELSE LET ks == Members(st, a.c)
              IN Over([st EXCEPT !.kept = [k \in Accounts |-> IF k \in ks THEN st.node[k] ELSE @[k]],
                                 !.lists[a.c] = <<ks>>], <<"all", a.c>>, Told(ks, st.node))
    [] a.op = "fail" ->
         LET target == IF "k" \in DOMAIN a THEN <<"one", a.k>> ELSE <<"all", a.c>>
         IN IF Waiting(st, target) = {} THEN [st |-> st, ans |-> {}] ELSE Over(st, target, Failure)
    [] a.op = "write" -> [st |-> [st EXCEPT !.node[a.k] = a.v], ans |-> {}]
    [] a.op = "clear" -> [st |-> [st EXCEPT !.kept = [k \in Accounts |-> 0], !.lists = [c \in Kinds |-> None]], ans |-> {}]
    [] a.op = "drop" -> [st |-> [st EXCEPT !.wait[a.r] = None], ans |-> {}]
    [] OTHER -> [st |-> st, ans |-> {}]
=============================================================================
