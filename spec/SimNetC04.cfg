INIT Init
NEXT Next
INVARIANT Good
CHECK_DEADLOCK FALSE
CONSTANTS WHICH = "C04"
 NMAX = 4
