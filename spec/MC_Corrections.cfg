INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS Confluent Stable Told NoBadText
