INIT Init
NEXT Next
INVARIANT Good
CHECK_DEADLOCK FALSE
CONSTANTS WHICH = "C03"
 NMAX = 4
