INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS RowsAreDue Silent Noticed
