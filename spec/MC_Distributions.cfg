INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS Action Composes StaysConsistent ZeroPlain RepairConsistent RepairOnce RepairSmall AmountKept HandedOver Covered ScoreRange
