------------------------------- MODULE Loader -------------------------------
(* Reading account data as one of the program's types, and optional keys.    *)
(* A load r asks for type ty of an account                                   *)
(*   own   owned by key own (1 is the program)                               *)
(*   disc  that starts with the discriminator of type disc (5 is another     *)
(*         type of the program, -1 zeroes), with bit flip inverted (-1 none) *)
(*   b, n  that has n bytes (b = 0), or n more than the type needs (b = 1)   *)
(*   via   0, 1 the account shared, mutable; 2 a shared borrow of it; 3, 4   *)
(*         a mutable borrow, shared, mutable; 5..7 owned copies              *)
(*   bw    while it is in use: 1 shared, 2 exclusively                       *)
EXTENDS Integers

Owned(r) == r.own = 1
Typed(r) == r.disc = r.ty /\ r.flip = -1
Complete(r) == r.b = 1 /\ r.n >= 0
Lent(r) == CASE r.via \in {0, 2} -> r.bw # 2 [] r.via \in {1, 3, 4} -> r.bw = 0 [] OTHER -> TRUE

Loads(r) == Owned(r) /\ Typed(r) /\ Complete(r) /\ Lent(r)

(* Optional keys: key 0 is the one no account has; -1 stands for none.       *)
Set(x) == x > 0
Names(x) == IF Set(x) THEN x ELSE -1
EqualsKey(x, y) == Set(x) /\ y >= 0 /\ x = y
Same(x, y) == Names(x) = Names(y)
=============================================================================
