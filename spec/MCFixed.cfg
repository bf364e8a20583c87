CONSTANTS MaxLen = 20 Bases = {0}
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS BigEndian FixedRead Prefixes Vsa
