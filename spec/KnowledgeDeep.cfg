INIT Init
NEXT Next
INVARIANT Confluent Agree Reapply
CHECK_DEADLOCK FALSE
CONSTANTS G = 1
 I = 1
 K = 3
