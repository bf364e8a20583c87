SPECIFICATION Spec
CONSTANTS
  Clients = {1, 2, 3}
  MaxCalls = 5
  MaxStart = 8
  MaxLen = 16
  Corrupt = {"body", "auth", "id"}
  Variant = "spec"
  Bodies = {"a", "b"}

CONSTRAINT EmitEnd
CHECK_DEADLOCK FALSE
