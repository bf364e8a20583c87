SPECIFICATION Spec
CONSTANTS
  Clients = {1, 2}
  MaxCalls = 2
  MaxStart = 3
  MaxLen = 8
  Corrupt = {"body", "auth", "id"}
  Variant = "spec"
  Bodies = {"a"}
INVARIANTS Exclusive Answered
VIEW View
CHECK_DEADLOCK FALSE
