SPECIFICATION Spec
CONSTANTS
  Key <- Keys2
  Variant = "spec"
  MaxSend = 3
  MaxRun = 2
  Classes0 = {"ok", "nosecret", "panic", "unauth", "malformed"}
  Outcomes = {"ok", "err", "panic"}
INVARIANTS Exclusive NoLeak Gate OwnContent NotAborted MonitorAccepts
CHECK_DEADLOCK FALSE
