SPECIFICATION Spec
CONSTANTS
  W = 3
  H = 3
  Gen = TRUE
ACTION_CONSTRAINT Emitted
INVARIANT Once
CHECK_DEADLOCK FALSE
