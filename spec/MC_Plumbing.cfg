INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS Walked YoungKept SameList
PROPERTIES SameAnswer OldGone
