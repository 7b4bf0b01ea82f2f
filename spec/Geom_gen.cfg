SPECIFICATION Spec
CONSTANTS
  Hi = 3
  Gen = TRUE
ACTION_CONSTRAINT Emitted
INVARIANT Sets
INVARIANT Least
CHECK_DEADLOCK FALSE
