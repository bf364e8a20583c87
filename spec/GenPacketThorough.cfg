CONSTANTS MaxObjs = 2 TypeSet = {1, 2} Depth = 4 Emit = TRUE
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
VIEW View
INVARIANTS Multimap Printed
