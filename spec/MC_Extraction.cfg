CONSTANT Design = "position"
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS AsAlone EachOnce
