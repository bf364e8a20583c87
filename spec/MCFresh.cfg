INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS NoRepeat Exhausted
