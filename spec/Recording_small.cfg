SPECIFICATION Spec
CONSTANTS
  MaxFrames = 2
  MaxRaw = 4
  Gen = FALSE
INVARIANT Inverse
ACTION_CONSTRAINT Emitted
CHECK_DEADLOCK FALSE
