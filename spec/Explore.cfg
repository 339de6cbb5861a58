INIT Init
NEXT Next
VIEW Seen
CHECK_DEADLOCK FALSE
CONSTANTS DEPTH = 2
 RATE = 40
