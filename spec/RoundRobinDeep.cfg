INIT Init
NEXT Next
INVARIANT OnlyActive EveryoneIn
CHECK_DEADLOCK FALSE
CONSTANTS N = 4
 D = 3
