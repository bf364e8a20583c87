CONSTANTS Mode = "pw" PwLen = 9 HashSeed = 23
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS UserPassword UserPasswordRead TunnelPassword TunnelPasswordRead Tagged
