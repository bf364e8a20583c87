CONSTANTS Mode = "pw" PwLen = 7 HashSeed = 11
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS UserPassword UserPasswordRead TunnelPassword TunnelPasswordRead Tagged
