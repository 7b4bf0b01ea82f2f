SPECIFICATION Spec
CONSTANTS
  W = 3
  H = 4
  Gen = FALSE
ACTION_CONSTRAINT Emitted
INVARIANT Once
CHECK_DEADLOCK FALSE
