CONSTANTS MaxObjs = 3 TypeSet = {1, 2} Depth = 4 Emit = FALSE
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
VIEW View
INVARIANTS Multimap LookupsAgree Identity
PROPERTIES Independent
