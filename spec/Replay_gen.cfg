SPECIFICATION Spec
CONSTANTS
  MaxKeys = 3
  MaxSizes = 2
  MaxFrames = 3
  SizeAt = "poll"
  DecodeBy = "stream"
  Gen = TRUE
VIEW view
INVARIANT Same
INVARIANT All
ACTION_CONSTRAINT Emitted
CHECK_DEADLOCK FALSE
