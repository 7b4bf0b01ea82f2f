SPECIFICATION Spec
CONSTANTS MaxWrite = 3 MaxOps = 4 Locked = TRUE
INVARIANTS Whole Kept Written
CHECK_DEADLOCK FALSE
