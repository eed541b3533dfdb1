INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS W01Same W01Balanced W01Restored W02Flipped W02Balance W02Signs W02Stable Q01Confluent Q01Magnitudes Q01OneProduct Q01Produced Q01NoLinks Q02Same Q02NonEmpty Q02Once
