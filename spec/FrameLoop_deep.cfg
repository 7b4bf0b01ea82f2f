SPECIFICATION Spec
CONSTANTS
  MaxKeys = 4
  MaxSizes = 3
  MaxFrames = 4
  ClearAt = "frame"
  Gen = FALSE
VIEW view
INVARIANTS Once Announced Redrawn
ACTION_CONSTRAINT Emitted
CHECK_DEADLOCK FALSE
