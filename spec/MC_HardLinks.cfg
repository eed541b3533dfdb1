INIT Init
NEXT Next
INVARIANTS Confluent NonNegative MarketsKept NoParentLink RejectedUntouched Idempotent
CHECK_DEADLOCK FALSE
