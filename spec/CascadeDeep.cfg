INIT InitF
NEXT Next
INVARIANT Ends Bounded
CHECK_DEADLOCK FALSE
CONSTANTS FULL = TRUE
