SPECIFICATION Spec
CONSTANTS
  Variant = "spec"
  MaxMsg = 4
INVARIANTS SentOnce FirstDecides EncodeErr NoEarlyTimeout OnlyAuthentic
PROPERTIES Ends
CHECK_DEADLOCK FALSE
