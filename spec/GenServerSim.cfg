SPECIFICATION Spec
CONSTANTS
  NKey = 4
  MaxLen = 24
  MaxRuns = 4
  Bads = {"any"}
  Outs = {"ok", "err", "panic"}
CONSTRAINT EmitEnd
CHECK_DEADLOCK FALSE
