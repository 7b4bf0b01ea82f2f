SPECIFICATION Spec
CONSTANTS
  MaxKeys = 5
  MaxSizes = 4
  MaxFrames = 4
  SizeAt = "poll"
  DecodeBy = "stream"
  Gen = FALSE
VIEW view
INVARIANT Same
INVARIANT All
ACTION_CONSTRAINT Emitted
CHECK_DEADLOCK FALSE
