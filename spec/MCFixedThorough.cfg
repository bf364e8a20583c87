CONSTANTS MaxLen = 40 Bases = {0, 127, 255}
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS BigEndian FixedRead Prefixes Vsa
