SPECIFICATION Spec
CONSTANTS
  Hi = 4
  Gen = FALSE
ACTION_CONSTRAINT Emitted
INVARIANT Sets
INVARIANT Least
CHECK_DEADLOCK FALSE
