INIT Init
NEXT Next
INVARIANTS NoOther NoFake Signed Admins Delegates Usable
CHECK_DEADLOCK FALSE
