INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS Correct Burdens Shares OneMarket Everything BestFirst Whole Exports
