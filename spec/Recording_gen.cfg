SPECIFICATION Spec
CONSTANTS
  MaxFrames = 2
  MaxRaw = 3
  Gen = TRUE
INVARIANT Inverse
ACTION_CONSTRAINT Emitted
CHECK_DEADLOCK FALSE
