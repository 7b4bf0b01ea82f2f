SPECIFICATION Spec
CONSTANTS MaxWrite = 6 MaxOps = 9 Locked = TRUE
INVARIANTS Whole Kept Written
CHECK_DEADLOCK FALSE
