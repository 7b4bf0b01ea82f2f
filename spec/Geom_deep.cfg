SPECIFICATION Spec
CONSTANTS
  Hi = 5
  Gen = FALSE
ACTION_CONSTRAINT Emitted
INVARIANT Sets
CHECK_DEADLOCK FALSE
