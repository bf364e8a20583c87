SPECIFICATION Spec
CONSTANTS
  Key <- Keys2
  Variant = "spec"
  MaxSend = 2
  MaxRun = 2
  Classes0 = {"ok"}
  Outcomes = {"ok"}
PROPERTIES Resolved Returns ReleasedEventually Serves
CHECK_DEADLOCK FALSE
