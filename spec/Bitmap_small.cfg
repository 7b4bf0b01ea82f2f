SPECIFICATION Spec
CONSTANTS
  W = 2
  H = 5
  Gen = FALSE
ACTION_CONSTRAINT Emitted
INVARIANT Once
CHECK_DEADLOCK FALSE
