SPECIFICATION Spec
CONSTANTS N = 3 MaxFrames = 13 Copy = TRUE
INVARIANTS Windows Whole Last
PROPERTY Ends
CHECK_DEADLOCK FALSE
