INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS OnlyTheDamage Disjoint Total Insensitive Deletes Asked
