SPECIFICATION Spec
CONSTANTS
  Key <- Keys2
  Variant = "serial"
  MaxSend = 2
  MaxRun = 2
  Classes0 = {"ok"}
  Outcomes = {"ok"}
PROPERTIES Serves
CHECK_DEADLOCK FALSE
