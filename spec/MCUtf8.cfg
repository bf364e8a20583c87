CONSTANTS Mode = "utf8" PwLen = 4 HashSeed = 1
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS Utf8
