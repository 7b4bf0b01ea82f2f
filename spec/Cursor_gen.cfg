SPECIFICATION Spec
CONSTANTS
  MaxLen = 3
  Gen = TRUE
VIEW View
ACTION_CONSTRAINT Emitted
INVARIANT True1
CHECK_DEADLOCK FALSE
