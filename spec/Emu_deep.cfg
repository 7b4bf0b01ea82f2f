SPECIFICATION Spec
CONSTANTS
  W = 3
  H = 2
  MaxLen = 7
  Gen = FALSE
VIEW View
INVARIANTS Agrees InBounds
CHECK_DEADLOCK FALSE
