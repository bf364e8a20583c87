CONSTANTS Base = 4 MaxLen = 9 MaxPkt = 8
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS NeverSealedWithAttrs
