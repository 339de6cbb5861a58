INIT Init
NEXT Next
INVARIANT Good
CHECK_DEADLOCK FALSE
CONSTANTS WHICH = "C05"
 NMAX = 4
