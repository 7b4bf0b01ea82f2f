SPECIFICATION Spec
CONSTANTS
  MaxFrames = 3
  MaxRaw = 3
  Gen = FALSE
INVARIANT Inverse
ACTION_CONSTRAINT Emitted
CHECK_DEADLOCK FALSE
