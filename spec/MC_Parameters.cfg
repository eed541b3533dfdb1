INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS Meaning Progress Confluent SettlesRight StuckRight NamesUnique DenotesSame Resolved
