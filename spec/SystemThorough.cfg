SPECIFICATION Spec
CONSTANTS
  Clients = {1, 2}
  MaxCalls = 3
  MaxStart = 3
  MaxLen = 9
  Corrupt = {"body", "auth", "id"}
  Variant = "spec"
  Bodies = {"a", "b"}
INVARIANTS Exclusive Answered
VIEW View
CHECK_DEADLOCK FALSE
