INIT Init
NEXT Next
INVARIANT Good
CHECK_DEADLOCK FALSE
CONSTANTS DEPTH = 60
 PRINT = FALSE
