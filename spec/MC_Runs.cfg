CONSTANTS Design = "own"
 Runners = {1, 2, 3}
 MaxEvents = 2
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANT OwnEvents
PROPERTY OthersStay
