INIT Init
NEXT Next
INVARIANT Good
CHECK_DEADLOCK FALSE
CONSTANTS WHICH = "C02"
 NMAX = 4
