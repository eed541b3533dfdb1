INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS NotRejected RowIffRegional NoSharedProducer NonNegative SharesSum GroupShares NoDoubleCounting GreedyIsChosen GroupVolume DemandConserved Resolved NothingLoose HardLinksKept PurgedIdle
