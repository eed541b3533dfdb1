INIT Init
NEXT Next
INVARIANTS TotalChoice OrderFree Covers SharesSumToOne Conserved RecycledConsumed FreeByproducts LinearConserved
CHECK_DEADLOCK TRUE
