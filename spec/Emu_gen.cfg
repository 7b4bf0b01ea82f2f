SPECIFICATION Spec
CONSTANTS
  W = 3
  H = 2
  MaxLen = 4
  Gen = TRUE
VIEW View
ACTION_CONSTRAINT Emitted
INVARIANTS Agrees InBounds
CHECK_DEADLOCK FALSE
