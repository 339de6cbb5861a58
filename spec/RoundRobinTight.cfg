INIT Init
NEXT Next
INVARIANT Tighter
CHECK_DEADLOCK FALSE
CONSTANTS N = 3
 D = 2
