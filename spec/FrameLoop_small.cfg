SPECIFICATION Spec
CONSTANTS
  MaxKeys = 3
  MaxSizes = 2
  MaxFrames = 3
  ClearAt = "frame"
  Gen = FALSE
VIEW view
INVARIANTS Once Announced Redrawn
ACTION_CONSTRAINT Emitted
CHECK_DEADLOCK FALSE
