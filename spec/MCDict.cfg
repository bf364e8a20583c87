INIT Init
NEXT Next
CONSTANTS
 MaxLines = 2
INVARIANTS Compositional Layout OptionOrder Ranges
CHECK_DEADLOCK FALSE
