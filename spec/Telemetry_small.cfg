SPECIFICATION Spec
CONSTANTS N = 2 MaxFrames = 6 Copy = TRUE
INVARIANTS Windows Whole Last
PROPERTY Ends
CHECK_DEADLOCK FALSE
