INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS Confluent Unit SignKept Ratios Refused
