INIT Init
NEXT Next
INVARIANTS Consistent Reflexive Inclusion Monotone Agrees RowPartition
CHECK_DEADLOCK FALSE
