CONSTANTS Design = "safe"
 MaxClock = 5
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANT NeverStale
