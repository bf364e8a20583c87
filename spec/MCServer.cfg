SPECIFICATION Spec
CONSTANTS
  Key <- Keys2
  Variant = "spec"
  MaxSend = 3
  MaxRun = 2
  Classes0 = {"ok", "malformed"}
  Outcomes = {"ok"}
INVARIANTS Exclusive NoLeak Gate OwnContent NotAborted MonitorAccepts
CHECK_DEADLOCK FALSE
