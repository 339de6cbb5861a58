INIT Init
NEXT Next
INVARIANT OnlyActive EveryoneIn
CHECK_DEADLOCK FALSE
CONSTANTS N = 3
 D = 2
