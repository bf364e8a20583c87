SPECIFICATION Spec
CONSTANTS
  NKey = 1
  MaxLen = 7
  MaxRuns = 2
  Bads = {"malformed"}
  Outs = {"ok", "err", "panic"}
VIEW View
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
