SPECIFICATION Spec
CONSTANTS
  MaxKeys = 3
  MaxSizes = 3
  MaxFrames = 3
  ClearAt = "frame"
  Gen = TRUE
VIEW view
INVARIANTS Once Announced Redrawn
ACTION_CONSTRAINT Emitted
CHECK_DEADLOCK FALSE
